From 5a4acb9968d047e6acb42ad9894e7ee2d76d5b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:59 +0000
Subject: [PATCH 01/16] fix: sqrt/cbrt/log/log10/exp/exp2 of uint64 values of
 2^63 and above

---
 src/UnaryOps.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index f552b38..4aa842f 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -2060,7 +2060,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_SQRT<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_SQRT<int64_t>;
+            return UnaryOpSlowDouble_SQRT<uint64_t>;
         case NPY_DOUBLE:
             return UnaryOpSlow_SQRT<double>;
         case NPY_LONGDOUBLE:
@@ -2087,7 +2087,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_CBRT<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_CBRT<int64_t>;
+            return UnaryOpSlowDouble_CBRT<uint64_t>;
         }
         break;
 
@@ -2116,7 +2116,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_LOG<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_LOG<int64_t>;
+            return UnaryOpSlowDouble_LOG<uint64_t>;
         }
         break;
 
@@ -2145,7 +2145,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_LOG10<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_LOG10<int64_t>;
+            return UnaryOpSlowDouble_LOG10<uint64_t>;
         }
         break;
 
@@ -2174,7 +2174,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_EXP<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_EXP<int64_t>;
+            return UnaryOpSlowDouble_EXP<uint64_t>;
         }
         break;
 
@@ -2203,7 +2203,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_EXP2<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_EXP2<int64_t>;
+            return UnaryOpSlowDouble_EXP2<uint64_t>;
         }
         break;
 
-- 
2.43.0


From 837c9e8dabecbc9d9979a67a434a2a1fefc89ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:59 +0000
Subject: [PATCH 02/16] fix: round halves to even in the scalar path of ROUND,
 as the vector path does

---
 src/UnaryOps.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index 4aa842f..6dfc235 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -292,17 +292,17 @@ static const inline bool ISNANORZERO_OP(T x)
 template <typename T>
 static const inline long double ROUND_OP(long double x)
 {
-    return roundl(x);
+    return nearbyintl(x);
 }
 template <typename T>
 static const inline double ROUND_OP(double x)
 {
-    return round(x);
+    return nearbyint(x);
 }
 template <typename T>
 static const inline float ROUND_OP(float x)
 {
-    return roundf(x);
+    return nearbyintf(x);
 }
 
 template <typename T>
-- 
2.43.0


From 8bfcac3d572e453ee204b7b3e974aa5a0b487199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:47 +0000
Subject: [PATCH 03/16] fix: integer modulo by zero and INT_MIN by -1 no longer
 trap

---
 src/BasicMath.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index d3271b3..0a0e686 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -7,6 +7,7 @@
 #include "Convert.h"
 #include "BasicMath.h"
 #include "platform_detect.h"
+#include <type_traits>
 
 //#define LOGGING printf
 #define LOGGING(...)
@@ -297,6 +298,13 @@ static const inline T FloorDivOp(T x, T y)
 {
     if (y != 0)
     {
+        // dividing the most negative value by -1 traps, negate (with wrap around) instead
+        if constexpr (std::is_integral_v<T> && std::is_signed_v<T>)
+        {
+            if (y == T(-1))
+                return static_cast<T>(0 - static_cast<std::make_unsigned_t<T>>(x));
+        }
+
         if ((x < 0) == (y < 0))
             return x / y;
 
@@ -337,6 +345,14 @@ static const inline float FloorDivOp(float x, float y)
 template <typename T>
 static const inline T ModOp(T x, T y)
 {
+    // modulo zero traps, as does the most negative value modulo -1
+    if (y == 0)
+        return 0;
+    if constexpr (std::is_integral_v<T> && std::is_signed_v<T>)
+    {
+        if (y == T(-1))
+            return 0;
+    }
     return x % y;
 }
 template <typename T>
-- 
2.43.0


From 3648a4bea671751d834a63787beeab56d0277cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:47 +0000
Subject: [PATCH 04/16] fix: bitwise andnot with a scalar operand reads the
 scalar as the scalar

---
 src/BasicMath.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 0a0e686..398b176 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -923,6 +923,15 @@ inline void SimpleMathOpFast(void * pDataIn1X, void * pDataIn2X, void * pDataOut
 template <typename T, typename U256, const T MATH_OP(T, T), const U256 MATH_OP256(U256, U256)>
 inline void SimpleMathOpFastReverse(void * pDataIn1X, void * pDataIn2X, void * pDataOutX, int64_t datalen, int32_t scalarMode)
 {
+    // the operands trade places, so does the side which is scalar
+    if (scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR)
+    {
+        scalarMode = SCALAR_MODE::SECOND_ARG_SCALAR;
+    }
+    else if (scalarMode == SCALAR_MODE::SECOND_ARG_SCALAR)
+    {
+        scalarMode = SCALAR_MODE::FIRST_ARG_SCALAR;
+    }
     return SimpleMathOpFast<T, U256, MATH_OP, MATH_OP256>(pDataIn2X, pDataIn1X, pDataOutX, datalen, scalarMode);
 }
 
-- 
2.43.0


From 0d62f5f8b05134321d5c063911805076650c8d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:45 +0000
Subject: [PATCH 05/16] fix: uint64 values of 2^63 and above never equal a
 negative int64

---
 src/Compare.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Compare.cpp b/src/Compare.cpp
index d9c0626..d150fea 100644
--- a/src/Compare.cpp
+++ b/src/Compare.cpp
@@ -1091,11 +1091,11 @@ ANY_TWO_FUNC GetComparisonOpFast(int func, int scalarMode, int numpyInType1, int
         {
             switch (func)
             {
-                // For equal, not equal the sign does not matter
+                // a value with the top bit set is out of range for the other type, never equal
             case MATH_OPERATION::CMP_EQ:
-                return CompareAny<int64_t, COMP_EQ>;
+                return CompareAny<int64_t, COMP_EQ_uint64_t>;
             case MATH_OPERATION::CMP_NE:
-                return CompareAny<int64_t, COMP_NE>;
+                return CompareAny<int64_t, COMP_NE_uint64_t>;
             case MATH_OPERATION::CMP_GT:
                 return CompareAny<uint64_t, COMP_GT_uint64_t>;
             case MATH_OPERATION::CMP_GTE:
-- 
2.43.0


From 5794d9020fd24685473323bd0f359aa2d63a5b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:45 +0000
Subject: [PATCH 06/16] fix: comparing a length one int64 array with uint64
 (and vice versa) respects the sign

---
 src/Compare.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Compare.cpp b/src/Compare.cpp
index d150fea..454a980 100644
--- a/src/Compare.cpp
+++ b/src/Compare.cpp
@@ -925,7 +925,7 @@ ANY_TWO_FUNC GetComparisonOpFast(int func, int scalarMode, int numpyInType1, int
 {
     bool bSpecialComparison = false;
 
-    if (scalarMode == SCALAR_MODE::NO_SCALARS && numpyInType1 != numpyInType2)
+    if (numpyInType1 != numpyInType2)
     {
         // Because upcasting an int64_t to a float64 results in precision loss, we
         // try comparisons
@@ -946,12 +946,13 @@ ANY_TWO_FUNC GetComparisonOpFast(int func, int scalarMode, int numpyInType1, int
             }
         }
 
-        if (! bSpecialComparison)
+        if (! bSpecialComparison && scalarMode == SCALAR_MODE::NO_SCALARS)
             return NULL;
     }
 
     *wantedOutType = NPY_BOOL;
-    int mainType = scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR ? numpyInType2 : numpyInType1;
+    // mixed 64 bit comparisons keep both types, also when the first argument is the scalar
+    int mainType = (scalarMode == SCALAR_MODE::FIRST_ARG_SCALAR && ! bSpecialComparison) ? numpyInType2 : numpyInType1;
 
     LOGGING("Comparison maintype %d for func %d  inputs: %d %d\n", mainType, func, numpyInType1, numpyInType2);
 
-- 
2.43.0


From bc4cc029f33c01267af3ce98466ad3fab073490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 07/16] fix: PutMask loop index must not wrap on arrays of 2^31
 or more elements

---
 src/Convert.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index d8df26c..a0bb98a 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -127,7 +127,7 @@ public:
         T * pOut = (T *)pDataOut;
 
         // TODO can be made faster by pulling 8 bytes at once
-        for (int i = 0; i < len; i++)
+        for (int64_t i = 0; i < len; i++)
         {
             if (pMask[i])
             {
@@ -143,7 +143,7 @@ public:
         T pBadValueIn = *(T *)pBadInput1;
         U pBadValueOut = *(U *)pBadOutput1;
 
-        for (int i = 0; i < len; i++)
+        for (int64_t i = 0; i < len; i++)
         {
             if (pMask[i])
             {
@@ -167,7 +167,7 @@ public:
         T pBadValueIn = *(T *)pBadInput1;
         U pBadValueOut = *(U *)pBadOutput1;
 
-        for (int i = 0; i < len; i++)
+        for (int64_t i = 0; i < len; i++)
         {
             if (pMask[i])
             {
@@ -183,7 +183,7 @@ public:
         U * pOut = (U *)pDataOut;
         U pBadValueOut = *(U *)pBadOutput1;
 
-        for (int i = 0; i < len; i++)
+        for (int64_t i = 0; i < len; i++)
         {
             if (pMask[i])
             {
-- 
2.43.0


From 7179f31b249d19d21bd708095c6580fbdaa44465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 08/16] fix: ConvertSafe between long double and float/double
 keeps infinities

---
 src/Convert.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index a0bb98a..fac5745 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -625,7 +625,7 @@ static CONVERT_SAFE GetConversionStep2SafeFromFloat(int outputType)
         return ConvertBase<T,
                            double>::OneStubConvertSafeFloatToDouble; // very common
     case NPY_LONGDOUBLE:
-        return ConvertBase<T, long double>::OneStubConvertSafeFloat;
+        return ConvertBase<T, long double>::OneStubConvertUnsafe;
     case NPY_BYTE:
         return ConvertBase<T, int8_t>::OneStubConvertSafeFloat;
     case NPY_INT16:
@@ -661,7 +661,7 @@ static CONVERT_SAFE GetConversionStep2SafeFromDouble(int outputType)
     case NPY_DOUBLE:
         return ConvertBase<T, double>::OneStubConvertSafeFloat;
     case NPY_LONGDOUBLE:
-        return ConvertBase<T, long double>::OneStubConvertSafeFloat;
+        return ConvertBase<T, long double>::OneStubConvertUnsafe;
     case NPY_BYTE:
         return ConvertBase<T, int8_t>::OneStubConvertSafeFloat;
     case NPY_INT16:
@@ -692,9 +692,9 @@ static CONVERT_SAFE GetConversionStep2SafeFloat(int outputType)
     case NPY_BOOL:
         return ConvertBase<T, bool>::OneStubConvertSafeBool;
     case NPY_FLOAT:
-        return ConvertBase<T, float>::OneStubConvertSafeFloat;
+        return ConvertBase<T, float>::OneStubConvertUnsafe;
     case NPY_DOUBLE:
-        return ConvertBase<T, double>::OneStubConvertSafeFloat;
+        return ConvertBase<T, double>::OneStubConvertUnsafe;
     case NPY_LONGDOUBLE:
         return ConvertBase<T, long double>::OneStubConvertSafeFloat;
     case NPY_BYTE:
-- 
2.43.0


From 341e3d5843de0020e1fd724407d9dd43c751b37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 09/16] fix: PutMask must not treat a boolean False as the
 invalid value

---
 src/Convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index fac5745..ff20564 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -3950,7 +3950,7 @@ PyObject * PutMask(PyObject * self, PyObject * args)
 
                         stMask.itemSizeIn = itemSizeIn;
                         stMask.itemSizeOut = itemSizeOut;
-                        stMask.pBadInput1 = GetDefaultForType(inDType);
+                        stMask.pBadInput1 = GetInvalid(inDType);
                         stMask.pBadOutput1 = GetDefaultForType(outDType);
 
                         stMask.pIn = (char *)PyArray_BYTES(inValues);
-- 
2.43.0


From 843af5e5400fc201aed2f7a94f5f92aa0fec876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 10/16] fix: NanSum/NanMean of float32 must clear the output
 bins of their own range

---
 src/GroupBy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index f2438d2..3243bd6 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -395,7 +395,7 @@ public:
         if (pass <= 0)
         {
             // Clear out memory for our range
-            memset(pOut, 0, sizeof(U) * (binHigh - binLow));
+            memset(pOut + binLow, 0, sizeof(U) * (binHigh - binLow));
             memset(pOutAccum, 0, sizeof(double) * (binHigh - binLow));
         }
 
@@ -880,7 +880,7 @@ public:
         if (pass <= 0)
         {
             // Clear out memory for our range
-            memset(pOriginalOut, 0, sizeof(U) * (binHigh - binLow));
+            memset(pOriginalOut + binLow, 0, sizeof(U) * (binHigh - binLow));
             memset(pOut, 0, sizeof(double) * (binHigh - binLow));
         }
 
-- 
2.43.0


From 05878229bbb30a1d05b27accd6e4177afc1e1455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 11/16] fix: getitem with an unsigned index array treats the
 index as unsigned

---
 src/Merge.cpp | 56 +++++++++++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 1e9c356..6fa7a0c 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -855,7 +855,7 @@ static void GetItemUInt(void * aValues, void * aIndex, void * aDataOut, int64_t
             const INDEX index = *pIndex;
             *pDataOut =
                 // Make sure the item is in range
-                index >= 0 && index < valLength ? pValues[index] : defaultVal;
+                static_cast<uint64_t>(index) < static_cast<uint64_t>(valLength) ? pValues[index] : defaultVal;
             pIndex++;
             pDataOut++;
         }
@@ -868,7 +868,7 @@ static void GetItemUInt(void * aValues, void * aIndex, void * aDataOut, int64_t
             const INDEX index = *pIndex;
             // Make sure the item is in range; if the index is negative -- but
             // otherwise still in range -- mimic Python's negative-indexing support.
-            if (index >= 0 && index < valLength)
+            if (static_cast<uint64_t>(index) < static_cast<uint64_t>(valLength))
             {
                 *pDataOut = *(VALUE *)((char *)pValues + (strideValue * index));
             }
@@ -990,7 +990,7 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
         {
             const INDEX index = *pIndex;
             const char * pSrc;
-            if (index < valLength)
+            if (static_cast<uint64_t>(index) < static_cast<uint64_t>(valLength))
             {
                 pSrc = pValues + (itemSize * index);
             }
@@ -1024,7 +1024,7 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
         {
             const INDEX index = *pIndex;
             const char * pSrc;
-            if (index < valLength)
+            if (static_cast<uint64_t>(index) < static_cast<uint64_t>(valLength))
             {
                 pSrc = pValues + (strideValue * index);
             }
@@ -1151,17 +1151,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int8_t>;
+            return GetItemUInt<int8_t, uint8_t>;
         case 2:
-            return GetItemUInt<int16_t, int8_t>;
+            return GetItemUInt<int16_t, uint8_t>;
         case 4:
-            return GetItemUInt<int32_t, int8_t>;
+            return GetItemUInt<int32_t, uint8_t>;
         case 8:
-            return GetItemUInt<int64_t, int8_t>;
+            return GetItemUInt<int64_t, uint8_t>;
         case 16:
-            return GetItemUInt<__m128, int8_t>;
+            return GetItemUInt<__m128, uint8_t>;
         default:
-            return GetItemUIntVariable<int8_t>;
+            return GetItemUIntVariable<uint8_t>;
         }
         break;
 
@@ -1186,17 +1186,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int16_t>;
+            return GetItemUInt<int8_t, uint16_t>;
         case 2:
-            return GetItemUInt<int16_t, int16_t>;
+            return GetItemUInt<int16_t, uint16_t>;
         case 4:
-            return GetItemUInt<int32_t, int16_t>;
+            return GetItemUInt<int32_t, uint16_t>;
         case 8:
-            return GetItemUInt<int64_t, int16_t>;
+            return GetItemUInt<int64_t, uint16_t>;
         case 16:
-            return GetItemUInt<__m128, int16_t>;
+            return GetItemUInt<__m128, uint16_t>;
         default:
-            return GetItemUIntVariable<int16_t>;
+            return GetItemUIntVariable<uint16_t>;
         }
         break;
 
@@ -1221,17 +1221,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int32_t>;
+            return GetItemUInt<int8_t, uint32_t>;
         case 2:
-            return GetItemUInt<int16_t, int32_t>;
+            return GetItemUInt<int16_t, uint32_t>;
         case 4:
-            return GetItemUInt<int32_t, int32_t>;
+            return GetItemUInt<int32_t, uint32_t>;
         case 8:
-            return GetItemUInt<int64_t, int32_t>;
+            return GetItemUInt<int64_t, uint32_t>;
         case 16:
-            return GetItemUInt<__m128, int32_t>;
+            return GetItemUInt<__m128, uint32_t>;
         default:
-            return GetItemUIntVariable<int32_t>;
+            return GetItemUIntVariable<uint32_t>;
         }
         break;
 
@@ -1256,17 +1256,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int64_t>;
+            return GetItemUInt<int8_t, uint64_t>;
         case 2:
-            return GetItemUInt<int16_t, int64_t>;
+            return GetItemUInt<int16_t, uint64_t>;
         case 4:
-            return GetItemUInt<int32_t, int64_t>;
+            return GetItemUInt<int32_t, uint64_t>;
         case 8:
-            return GetItemUInt<int64_t, int64_t>;
+            return GetItemUInt<int64_t, uint64_t>;
         case 16:
-            return GetItemUInt<__m128, int64_t>;
+            return GetItemUInt<__m128, uint64_t>;
         default:
-            return GetItemUIntVariable<int64_t>;
+            return GetItemUIntVariable<uint64_t>;
         }
         break;
     }
-- 
2.43.0


From 60993b6c39db68d16b63f4a4519de976c43ad5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 12/16] fix: getitem of strings with an unsigned index must not
 skip output items

---
 src/Merge.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 6fa7a0c..080d3e3 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1014,7 +1014,6 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
             //    memcpy(pDataOut, pSrc, itemSize);
 
             pIndex++;
-            pDataOut += itemSize;
         }
     }
     else
@@ -1046,7 +1045,6 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
                 *pDataOut++ = *pSrc++;
             }
             pIndex = STRIDE_NEXT(const INDEX, pIndex, strideIndex);
-            pDataOut += itemSize;
         }
     }
 }
-- 
2.43.0


From 26a038228e184864b146857b34f6b715d04f4ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 13/16] fix: multithreaded getitem from a strided array writes
 its blocks at the right place

---
 src/Merge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 080d3e3..db28da5 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1100,7 +1100,7 @@ static bool GetItemCallback(struct stMATH_WORKER_ITEM * pstWorkerItem, int core,
         // work block
         int64_t blockStart = workBlock * pstWorkerItem->BlockSize;
 
-        int64_t valueAdj = blockStart * strideValue;
+        int64_t valueAdj = blockStart * valueItemSize; // the output is contiguous
         int64_t indexAdj = blockStart * strideIndex;
 
         LOGGING(
-- 
2.43.0


From 9e1d54ccbdbc8fee3675a0224a2b0d04b94be130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:54 +0000
Subject: [PATCH 14/16] fix: BooleanToFancy of a strided mask reads the strided
 elements

---
 src/Merge.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index db28da5..9c75b20 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1584,6 +1584,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
             int64_t * pChunkCount;
             int64_t * pChunkCountFalse;
             int8_t * pBooleanMask;
+            int64_t strideBoolean;
             void * pValuesOut;
             int64_t totalTrue;
             int dtype;
@@ -1597,6 +1598,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
             int64_t chunkCount = callbackArg->pChunkCount[start / g_cMathWorker->WORK_ITEM_CHUNK];
             int8_t * pBooleanMask = callbackArg->pBooleanMask;
+            int64_t strideBoolean = callbackArg->strideBoolean;
             bool bothMode = callbackArg->bothMode;
 
             if (bothMode)
@@ -1615,7 +1617,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = i;
                         }
@@ -1635,7 +1637,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = (int32_t)i;
                         }
@@ -1655,7 +1657,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = i;
                         }
@@ -1668,7 +1670,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
                     for (int64_t i = start; i < (start + length); i++)
                     {
-                        if (pBooleanMask[i])
+                        if (pBooleanMask[i * strideBoolean])
                         {
                             *pOut++ = (int32_t)i;
                         }
@@ -1683,6 +1685,7 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
         stBTFCallback.pChunkCount = pChunkCount;
         stBTFCallback.pChunkCountFalse = pChunkCountFalse;
         stBTFCallback.pBooleanMask = (int8_t *)PyArray_BYTES(aIndex);
+        stBTFCallback.strideBoolean = strideBoolean;
         stBTFCallback.pValuesOut = (int64_t *)PyArray_BYTES(returnArray);
         stBTFCallback.dtype = dtype;
         stBTFCallback.totalTrue = totalTrue;
-- 
2.43.0


From 3eb6b3e4e5ad8310d671039e2bb3ca88e40fa173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 15/16] fix: cumulative min/max left rows without a group unset
 (or mixed them together) instead of giving the invalid value

---
 src/Ema.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 119ebe4..3026b19 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -951,6 +951,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
         else
@@ -978,6 +982,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
     }
@@ -1010,6 +1018,10 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
 
@@ -1020,6 +1032,11 @@ static void CumNanExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_
                 K const location = pKey[i];
 
                 // Bin 0 is bad
+                if (location < GB_BASE_INDEX)
+                {
+                    pDest[i] = Invalid;
+                    continue;
+                }
                 // if new value (pSrc[i]) is invalid, do nothing
                 if (riptide::invalid_for_type<T>::is_valid(pSrc[i]))
                 {
@@ -1100,6 +1117,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
         else
@@ -1130,6 +1151,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
     }
@@ -1161,6 +1186,10 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                     }
                     pDest[i] = pWorkSpace[location];
                 }
+                else
+                {
+                    pDest[i] = Invalid;
+                }
             }
         }
 
@@ -1171,6 +1200,11 @@ static void CumExtreme(void * pKeyT, void * pAccumBin, void * pColumn, int64_t n
                 K const location = pKey[i];
 
                 // Bin 0 is bad
+                if (location < GB_BASE_INDEX)
+                {
+                    pDest[i] = Invalid;
+                    continue;
+                }
                 if (not pWorkSpaceDataSeen[location])
                 {
                     pWorkSpace[location] = pSrc[i];
-- 
2.43.0


From a3093c4695e1dc0b0773d6c1b822dcf4fb02e4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 16/16] fix: ema_decay with both a filter and a reset mask
 returned zero for every row

---
 src/Ema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 3026b19..cc75818 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -1506,7 +1506,7 @@ public:
                             pLastTime[location] = pTime[i];
                         }
 
-                        pDest[i] = 0;
+                        pDest[i] = pLastEma[location];
                     }
                     else
                     {
-- 
2.43.0

