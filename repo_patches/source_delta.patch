From 2fbb8f1327ccdefd3c732ea2f85b8239a62f95ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 01/12] fix: UFP of a double returns a double, not a float

---
 src/common/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/common.h b/src/common/common.h
index d8b956a..4f9e120 100644
--- a/src/common/common.h
+++ b/src/common/common.h
@@ -26,7 +26,7 @@ typedef union int_float_ {
   uint32_t i;
 } int_float;
 
-inline float UFP(double X) {
+inline double UFP(double X) {
   long_double tmp_UFP;
   tmp_UFP.d = X;
   tmp_UFP.l &= (2ull * DBL_MAX_EXP - 1) << (DBL_MANT_DIG - 1);
-- 
2.43.0


From a791803cbe7aeeba221815511272c9237c60e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 02/12] fix: complex conversion steps through carries by twice
 the carry stride

---
 src/binned/ccmconv_sub.c | 4 ++--
 src/binned/zzmconv_sub.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/binned/ccmconv_sub.c b/src/binned/ccmconv_sub.c
index 20bf1d6..7ecafa2 100644
--- a/src/binned/ccmconv_sub.c
+++ b/src/binned/ccmconv_sub.c
@@ -16,6 +16,6 @@
  * @date   27 Apr 2015
  */
 void binned_ccmconv_sub(const int fold, const float *priX, const int incpriX, const float *carX, const int inccarX, void *conv) {
-  ((float*)conv)[0] = binned_ssmconv(fold, priX, incpriX * 2, carX, inccarX + 1);
-  ((float*)conv)[1] = binned_ssmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX + 1);
+  ((float*)conv)[0] = binned_ssmconv(fold, priX, incpriX * 2, carX, inccarX * 2);
+  ((float*)conv)[1] = binned_ssmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX * 2);
 }
diff --git a/src/binned/zzmconv_sub.c b/src/binned/zzmconv_sub.c
index 0baccc1..c4f73c7 100644
--- a/src/binned/zzmconv_sub.c
+++ b/src/binned/zzmconv_sub.c
@@ -16,6 +16,6 @@
  * @date   27 Apr 2015
  */
 void binned_zzmconv_sub(const int fold, const double *priX, const int incpriX, const double *carX, const int inccarX, void *conv) {
-  ((double*)conv)[0] = binned_ddmconv(fold, priX, incpriX * 2, carX, inccarX + 1);
-  ((double*)conv)[1] = binned_ddmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX + 1);
+  ((double*)conv)[0] = binned_ddmconv(fold, priX, incpriX * 2, carX, inccarX * 2);
+  ((double*)conv)[1] = binned_ddmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX * 2);
 }
-- 
2.43.0


From 52174f395b23fce9accb3b2eeeefb6f08b54f4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 03/12] fix: complex rescale treats the two parts independently
 and with their own strides

---
 src/binned/cmsrescale.c | 19 ++-----------------
 src/binned/zmdrescale.c | 19 ++-----------------
 2 files changed, 4 insertions(+), 34 deletions(-)

diff --git a/src/binned/cmsrescale.c b/src/binned/cmsrescale.c
index 628959d..b93a976 100644
--- a/src/binned/cmsrescale.c
+++ b/src/binned/cmsrescale.c
@@ -18,21 +18,6 @@
  * @date   19 Jun 2015
  */
 void binned_cmsrescale(const int fold, const float X, const float scaleY, float *priY, const int incpriY, float *carY, const int inccarY){
-  int i;
-  float rescaleY;
-
-  if(X == scaleY || X == 0.0 || scaleY == 0.0){
-    return;
-  }
-
-  rescaleY = X/scaleY;
-  rescaleY *= rescaleY;
-  for(i = 0; i < fold; i++){
-    priY[i * 2 * incpriY] /= rescaleY;
-    priY[i * 2 * incpriY + 1] /= rescaleY;
-    if(priY[i * incpriY] == 0.0){
-      binned_cmsupdate(fold - i, 0.0, priY + i * 2 * incpriY, incpriY, carY + i * 2 * inccarY, inccarY);
-      return;
-    }
-  }
+  binned_smsrescale(fold, X, scaleY, priY, 2 * incpriY, carY, 2 * inccarY);
+  binned_smsrescale(fold, X, scaleY, priY + 1, 2 * incpriY, carY + 1, 2 * inccarY);
 }
diff --git a/src/binned/zmdrescale.c b/src/binned/zmdrescale.c
index 6c1542a..ce2c198 100644
--- a/src/binned/zmdrescale.c
+++ b/src/binned/zmdrescale.c
@@ -18,21 +18,6 @@
  * @date   1 Jun 2015
  */
 void binned_zmdrescale(const int fold, const double X, const double scaleY, double *priY, const int incpriY, double *carY, const int inccarY){
-  int i;
-  double rescaleY;
-
-  if(X == scaleY || X == 0.0 || scaleY == 0.0){
-    return;
-  }
-
-  rescaleY = X/scaleY;
-  rescaleY *= rescaleY;
-  for(i = 0; i < fold; i++){
-    priY[i * 2 * incpriY] /= rescaleY;
-    priY[i * 2 * incpriY + 1] /= rescaleY;
-    if(priY[i * incpriY] == 0.0){
-      binned_zmdupdate(fold - i, 0.0, priY + i * 2 * incpriY, incpriY, carY + i * 2 * inccarY, inccarY);
-      break;
-    }
-  }
+  binned_dmdrescale(fold, X, scaleY, priY, 2 * incpriY, carY, 2 * inccarY);
+  binned_dmdrescale(fold, X, scaleY, priY + 1, 2 * incpriY, carY + 1, 2 * inccarY);
 }
-- 
2.43.0


From 1e5f5c0ccccace570b0e5361f466edc3a6c5de5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 04/12] fix: release the temporary accumulator when combining
 scaled sums of squares

---
 src/binned/dmdmaddsq.c | 3 +++
 src/binned/smsmaddsq.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/binned/dmdmaddsq.c b/src/binned/dmdmaddsq.c
index 5a3b854..c068288 100644
--- a/src/binned/dmdmaddsq.c
+++ b/src/binned/dmdmaddsq.c
@@ -1,3 +1,5 @@
+#include <stdlib.h>
+
 #include <binned.h>
 
 /**
@@ -36,6 +38,7 @@ double binned_dmdmaddsq(const int fold, const double scaleX, const double *priX,
     binned_dmdmset(fold, priX, incpriX, carX, inccarX, tmp_X, 1, tmp_X + fold, 1);
     binned_dmdrescale(fold, scaleY, scaleX, tmp_X, 1, tmp_X + fold, 1);
     binned_dmdmadd(fold, tmp_X, 1, tmp_X + fold, 1, priY, incpriY, carY, inccarY);
+    free(tmp_X);
     return scaleY;
   }
 }
diff --git a/src/binned/smsmaddsq.c b/src/binned/smsmaddsq.c
index 006c6ac..b48d124 100644
--- a/src/binned/smsmaddsq.c
+++ b/src/binned/smsmaddsq.c
@@ -1,3 +1,5 @@
+#include <stdlib.h>
+
 #include <binned.h>
 
 /**
@@ -37,6 +39,7 @@ float binned_smsmaddsq(const int fold, const float scaleX, const float *priX, co
     binned_smsmset(fold, priX, incpriX, carX, inccarX, tmp_X, 1, tmp_X + fold, 1);
     binned_smsrescale(fold, scaleY, scaleX, tmp_X, 1, tmp_X + fold, 1);
     binned_smsmadd(fold, tmp_X, 1, tmp_X + fold, 1, priY, incpriY, carY, inccarY);
+    free(tmp_X);
     return scaleY;
   }
 }
-- 
2.43.0


From 21b5d7c5fd82238f2af45146324dc6380831a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 05/12] fix: complex dot products renormalise before an
 accumulator's endurance is exceeded

---
 src/binnedBLAS/cmcdotc.ccog | 2 +-
 src/binnedBLAS/cmcdotu.ccog | 2 +-
 src/binnedBLAS/zmzdotc.ccog | 2 +-
 src/binnedBLAS/zmzdotu.ccog | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/binnedBLAS/cmcdotc.ccog b/src/binnedBLAS/cmcdotc.ccog
index 9eddafc..6c9a277 100644
--- a/src/binnedBLAS/cmcdotc.ccog
+++ b/src/binnedBLAS/cmcdotc.ccog
@@ -59,7 +59,7 @@ cog.out(generate.generate(blockSize.BlockSize("cmcdotc", "N_block_MAX", 32, term
 void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, float *priZ, const int incpriZ, float *carZ, const int inccarZ){
   float amaxm[2];
   int i, j;
-  int N_block = N_block_MAX;
+  int N_block = MIN(N_block_MAX, binned_SBENDURANCE/2); //each element deposits twice in each part
   int deposits = 0;
 
   const float *x = (const float*)X;
diff --git a/src/binnedBLAS/cmcdotu.ccog b/src/binnedBLAS/cmcdotu.ccog
index d1b256d..f8105d7 100644
--- a/src/binnedBLAS/cmcdotu.ccog
+++ b/src/binnedBLAS/cmcdotu.ccog
@@ -59,7 +59,7 @@ cog.out(generate.generate(blockSize.BlockSize("cmcdotu", "N_block_MAX", 32, term
 void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, float *priZ, const int incpriZ, float *carZ, const int inccarZ){
   float amaxm[2];
   int i, j;
-  int N_block = N_block_MAX;
+  int N_block = MIN(N_block_MAX, binned_SBENDURANCE/2); //each element deposits twice in each part
   int deposits = 0;
 
   const float *x = (const float*)X;
diff --git a/src/binnedBLAS/zmzdotc.ccog b/src/binnedBLAS/zmzdotc.ccog
index 2200f3a..967533c 100644
--- a/src/binnedBLAS/zmzdotc.ccog
+++ b/src/binnedBLAS/zmzdotc.ccog
@@ -59,7 +59,7 @@ cog.out(generate.generate(blockSize.BlockSize("zmzdotc", "N_block_MAX", 32, term
 void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, double *priZ, const int incpriZ, double *carZ, const int inccarZ){
   double amaxm[2];
   int i, j;
-  int N_block = N_block_MAX;
+  int N_block = MIN(N_block_MAX, binned_DBENDURANCE/2); //each element deposits twice in each part
   int deposits = 0;
 
   const double *x = (const double*)X;
diff --git a/src/binnedBLAS/zmzdotu.ccog b/src/binnedBLAS/zmzdotu.ccog
index cb2b75f..2c6fb5c 100644
--- a/src/binnedBLAS/zmzdotu.ccog
+++ b/src/binnedBLAS/zmzdotu.ccog
@@ -59,7 +59,7 @@ cog.out(generate.generate(blockSize.BlockSize("zmzdotu", "N_block_MAX", 32, term
 void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, double *priZ, const int incpriZ, double *carZ, const int inccarZ){
   double amaxm[2];
   int i, j;
-  int N_block = N_block_MAX;
+  int N_block = MIN(N_block_MAX, binned_DBENDURANCE/2); //each element deposits twice in each part
   int deposits = 0;
 
   const double *x = (const double*)X;
-- 
2.43.0


From e05c8ef242c54527d60950ecd3d8fa7bc3d74c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:06 +0000
Subject: [PATCH 06/12] fix: infinities in sums and dot products do not depend
 on the order of the data

---
 src/binnedBLAS/cmcdotc.ccog | 18 ++++++++++++++++--
 src/binnedBLAS/cmcdotu.ccog | 18 ++++++++++++++++--
 src/binnedBLAS/cmcsum.ccog  |  8 ++++++--
 src/binnedBLAS/dmddot.ccog  |  5 ++++-
 src/binnedBLAS/dmdsum.ccog  |  4 +++-
 src/binnedBLAS/smsdot.ccog  |  5 ++++-
 src/binnedBLAS/smssum.ccog  |  4 +++-
 src/binnedBLAS/zmzdotc.ccog | 18 ++++++++++++++++--
 src/binnedBLAS/zmzdotu.ccog | 18 ++++++++++++++++--
 src/binnedBLAS/zmzsum.ccog  |  8 ++++++--
 10 files changed, 90 insertions(+), 16 deletions(-)

diff --git a/src/binnedBLAS/cmcdotc.ccog b/src/binnedBLAS/cmcdotc.ccog
index 6c9a277..ab367cf 100644
--- a/src/binnedBLAS/cmcdotc.ccog
+++ b/src/binnedBLAS/cmcdotc.ccog
@@ -72,12 +72,26 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] + x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        const float xy = x[j * 2 * incX] * y[j * 2 * incY];
+        const float yx = x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINFF(xy)){
+          priZ[0] += xy;
+        }
+        if (ISNANINFF(yx)){
+          priZ[0] += yx;
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] - x[j * 2 * incX + 1] * y[j * 2 * incY];
+        const float xy = x[j * 2 * incX] * y[j * 2 * incY + 1];
+        const float yx = x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINFF(xy)){
+          priZ[1] += xy;
+        }
+        if (ISNANINFF(yx)){
+          priZ[1] -= yx;
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/cmcdotu.ccog b/src/binnedBLAS/cmcdotu.ccog
index f8105d7..93be463 100644
--- a/src/binnedBLAS/cmcdotu.ccog
+++ b/src/binnedBLAS/cmcdotu.ccog
@@ -72,12 +72,26 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] - x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        const float xy = x[j * 2 * incX] * y[j * 2 * incY];
+        const float yx = x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINFF(xy)){
+          priZ[0] += xy;
+        }
+        if (ISNANINFF(yx)){
+          priZ[0] -= yx;
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] + x[j * 2 * incX + 1] * y[j * 2 * incY];
+        const float xy = x[j * 2 * incX] * y[j * 2 * incY + 1];
+        const float yx = x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINFF(xy)){
+          priZ[1] += xy;
+        }
+        if (ISNANINFF(yx)){
+          priZ[1] += yx;
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/cmcsum.ccog b/src/binnedBLAS/cmcsum.ccog
index 2c599fd..5ba386c 100644
--- a/src/binnedBLAS/cmcsum.ccog
+++ b/src/binnedBLAS/cmcsum.ccog
@@ -70,12 +70,16 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
 
     if (isinf(amax[0]) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += x[j * 2 * incX];
+        if (ISNANINFF(x[j * 2 * incX])){
+          priY[0] += x[j * 2 * incX];
+        }
       }
     }
     if (isinf(amax[1]) || isinf(priY[1])){
       for (j = 0; j < N_block; j++){
-        priY[1] += x[j * 2 * incX + 1];
+        if (ISNANINFF(x[j * 2 * incX + 1])){
+          priY[1] += x[j * 2 * incX + 1];
+        }
       }
     }
     if (isnan(priY[0]) && isnan(priY[1])){
diff --git a/src/binnedBLAS/dmddot.ccog b/src/binnedBLAS/dmddot.ccog
index 2f38a52..37c6ec2 100644
--- a/src/binnedBLAS/dmddot.ccog
+++ b/src/binnedBLAS/dmddot.ccog
@@ -69,7 +69,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
 
     if (isinf(amaxm) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += X[j * incX] * Y[j * incY];
+        const double xy = X[j * incX] * Y[j * incY];
+        if (ISNANINF(xy)){
+          priZ[0] += xy;
+        }
       }
     }
     if (isnan(priZ[0])){
diff --git a/src/binnedBLAS/dmdsum.ccog b/src/binnedBLAS/dmdsum.ccog
index b67b791..b80ca38 100644
--- a/src/binnedBLAS/dmdsum.ccog
+++ b/src/binnedBLAS/dmdsum.ccog
@@ -67,7 +67,9 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
 
     if (isinf(amax) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += X[j * incX];
+        if (ISNANINF(X[j * incX])){
+          priY[0] += X[j * incX];
+        }
       }
     }
     if (isnan(priY[0])){
diff --git a/src/binnedBLAS/smsdot.ccog b/src/binnedBLAS/smsdot.ccog
index 408ef3f..c1382fb 100644
--- a/src/binnedBLAS/smsdot.ccog
+++ b/src/binnedBLAS/smsdot.ccog
@@ -69,7 +69,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
 
     if (isinf(amaxm) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += X[j * incX] * Y[j * incY];
+        const float xy = X[j * incX] * Y[j * incY];
+        if (ISNANINFF(xy)){
+          priZ[0] += xy;
+        }
       }
     }
     if (isnan(priZ[0])){
diff --git a/src/binnedBLAS/smssum.ccog b/src/binnedBLAS/smssum.ccog
index 330aeaf..12926b9 100644
--- a/src/binnedBLAS/smssum.ccog
+++ b/src/binnedBLAS/smssum.ccog
@@ -68,7 +68,9 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
 
     if (isinf(amax) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += X[j * incX];
+        if (ISNANINFF(X[j * incX])){
+          priY[0] += X[j * incX];
+        }
       }
     }
     if (isnan(priY[0])){
diff --git a/src/binnedBLAS/zmzdotc.ccog b/src/binnedBLAS/zmzdotc.ccog
index 967533c..a6ab731 100644
--- a/src/binnedBLAS/zmzdotc.ccog
+++ b/src/binnedBLAS/zmzdotc.ccog
@@ -72,12 +72,26 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] + x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        const double xy = x[j * 2 * incX] * y[j * 2 * incY];
+        const double yx = x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINF(xy)){
+          priZ[0] += xy;
+        }
+        if (ISNANINF(yx)){
+          priZ[0] += yx;
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] - x[j * 2 * incX + 1] * y[j * 2 * incY];
+        const double xy = x[j * 2 * incX] * y[j * 2 * incY + 1];
+        const double yx = x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINF(xy)){
+          priZ[1] += xy;
+        }
+        if (ISNANINF(yx)){
+          priZ[1] -= yx;
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/zmzdotu.ccog b/src/binnedBLAS/zmzdotu.ccog
index 2c6fb5c..41f2243 100644
--- a/src/binnedBLAS/zmzdotu.ccog
+++ b/src/binnedBLAS/zmzdotu.ccog
@@ -72,12 +72,26 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] - x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        const double xy = x[j * 2 * incX] * y[j * 2 * incY];
+        const double yx = x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINF(xy)){
+          priZ[0] += xy;
+        }
+        if (ISNANINF(yx)){
+          priZ[0] -= yx;
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] + x[j * 2 * incX + 1] * y[j * 2 * incY];
+        const double xy = x[j * 2 * incX] * y[j * 2 * incY + 1];
+        const double yx = x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINF(xy)){
+          priZ[1] += xy;
+        }
+        if (ISNANINF(yx)){
+          priZ[1] += yx;
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/zmzsum.ccog b/src/binnedBLAS/zmzsum.ccog
index 168c2be..a7c5ea3 100644
--- a/src/binnedBLAS/zmzsum.ccog
+++ b/src/binnedBLAS/zmzsum.ccog
@@ -69,12 +69,16 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
 
     if (isinf(amax[0]) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += x[j * 2 * incX];
+        if (ISNANINF(x[j * 2 * incX])){
+          priY[0] += x[j * 2 * incX];
+        }
       }
     }
     if (isinf(amax[1]) || isinf(priY[1])){
       for (j = 0; j < N_block; j++){
-        priY[1] += x[j * 2 * incX + 1];
+        if (ISNANINF(x[j * 2 * incX + 1])){
+          priY[1] += x[j * 2 * incX + 1];
+        }
       }
     }
     if (isnan(priY[0]) && isnan(priY[1])){
-- 
2.43.0


From e7fea2d8d59a1ef211e0d5992c5b9be26ff8206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:06 +0000
Subject: [PATCH 07/12] fix: rescaling leaves an infinite or NaN sum of squares
 as it is

---
 src/binned/dmdrescale.c | 6 +++++-
 src/binned/smsrescale.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/binned/dmdrescale.c b/src/binned/dmdrescale.c
index d18c8b6..1d6733f 100644
--- a/src/binned/dmdrescale.c
+++ b/src/binned/dmdrescale.c
@@ -1,5 +1,9 @@
+#include <math.h>
+
 #include <binned.h>
 
+#include "../common/common.h"
+
 /**
  * @internal
  * @brief rescale manually specified binned double precision sum of squares
@@ -21,7 +25,7 @@ void binned_dmdrescale(const int fold, const double X, const double scaleY, doub
   int i;
   double rescaleY;
 
-  if(X == scaleY || X == 0.0 || scaleY == 0.0){
+  if(X == scaleY || X == 0.0 || scaleY == 0.0 || ISNANINF(priY[0])){
     return;
   }
 
diff --git a/src/binned/smsrescale.c b/src/binned/smsrescale.c
index 508fbf4..44c089f 100644
--- a/src/binned/smsrescale.c
+++ b/src/binned/smsrescale.c
@@ -1,5 +1,9 @@
+#include <math.h>
+
 #include <binned.h>
 
+#include "../common/common.h"
+
 /**
  * @internal
  * @brief rescale manually specified binned single precision sum of squares
@@ -21,7 +25,7 @@ void binned_smsrescale(const int fold, const float X, const float scaleY, float
   int i;
   float rescaleY;
 
-  if(X == scaleY || X == 0.0 || scaleY == 0.0){
+  if(X == scaleY || X == 0.0 || scaleY == 0.0 || ISNANINFF(priY[0])){
     return;
   }
 
-- 
2.43.0


From c3172a4b6fc1c4239a65f4d2960536466de60df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:08 +0000
Subject: [PATCH 08/12] fix: column-major conjugate transposed complex gemv
 takes M, not N, elements of each column

---
 src/binnedBLAS/cbcgemv.ccog | 2 +-
 src/binnedBLAS/zbzgemv.ccog | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binnedBLAS/cbcgemv.ccog b/src/binnedBLAS/cbcgemv.ccog
index 22bbbae..95bc96c 100644
--- a/src/binnedBLAS/cbcgemv.ccog
+++ b/src/binnedBLAS/cbcgemv.ccog
@@ -215,7 +215,7 @@ void binnedBLAS_cbcgemv(const int fold, const char Order,
           for(i = 0; i < N; i += Y_BLOCK){
             for(j = 0; j < M; j += X_BLOCK){
               for(ii = i; ii < N && ii < i + Y_BLOCK; ii++){
-                binnedBLAS_cbcdotc(fold, MIN(X_BLOCK, N - j), ((float*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_cbnum(fold));
+                binnedBLAS_cbcdotc(fold, MIN(X_BLOCK, M - j), ((float*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_cbnum(fold));
               }
             }
           }
diff --git a/src/binnedBLAS/zbzgemv.ccog b/src/binnedBLAS/zbzgemv.ccog
index e99b85d..bd17bb4 100644
--- a/src/binnedBLAS/zbzgemv.ccog
+++ b/src/binnedBLAS/zbzgemv.ccog
@@ -215,7 +215,7 @@ void binnedBLAS_zbzgemv(const int fold, const char Order,
           for(i = 0; i < N; i += Y_BLOCK){
             for(j = 0; j < M; j += X_BLOCK){
               for(ii = i; ii < N && ii < i + Y_BLOCK; ii++){
-                binnedBLAS_zbzdotc(fold, MIN(X_BLOCK, N - j), ((double*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_zbnum(fold));
+                binnedBLAS_zbzdotc(fold, MIN(X_BLOCK, M - j), ((double*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_zbnum(fold));
               }
             }
           }
-- 
2.43.0


From 297c8acd8b5e6054e75c81cbd46d8b97843b62b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:46 +0000
Subject: [PATCH 09/12] fix: column-major transposed complex gemm scales the
 imaginary part of A by alpha

---
 src/binnedBLAS/cbcgemm.ccog | 8 ++++----
 src/binnedBLAS/zbzgemm.ccog | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/binnedBLAS/cbcgemm.ccog b/src/binnedBLAS/cbcgemm.ccog
index 13365a6..f94071c 100644
--- a/src/binnedBLAS/cbcgemm.ccog
+++ b/src/binnedBLAS/cbcgemm.ccog
@@ -652,7 +652,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
               }
             }
             ldbufa = K;
@@ -751,7 +751,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -796,7 +796,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -847,7 +847,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
diff --git a/src/binnedBLAS/zbzgemm.ccog b/src/binnedBLAS/zbzgemm.ccog
index 5a9c958..61f245f 100644
--- a/src/binnedBLAS/zbzgemm.ccog
+++ b/src/binnedBLAS/zbzgemm.ccog
@@ -652,7 +652,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
               }
             }
             ldbufa = K;
@@ -751,7 +751,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -796,7 +796,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -847,7 +847,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
-- 
2.43.0


From 39b482469b534b3304eb106c70dbe36566e5a5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:59 +0000
Subject: [PATCH 10/12] fix: reduce complex accumulators with the complex
 addition in binnedMPI_ZBZBADD

The operator added double_complex_binned accumulators with binned_dbdbaddv,
which treats them as real accumulators of half the size.
---
 src/binnedMPI/ZBZBADD.ccog | 102 ++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 51 deletions(-)

diff --git a/src/binnedMPI/ZBZBADD.ccog b/src/binnedMPI/ZBZBADD.ccog
index 7441faf..03ea492 100644
--- a/src/binnedMPI/ZBZBADD.ccog
+++ b/src/binnedMPI/ZBZBADD.ccog
@@ -10,208 +10,208 @@ import cog
 from scripts import terminal
 for fold in range(2, terminal.get_dimaxindex() + 1):
   cog.outl("static void binnedMPI_zbzbadd_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
-  cog.outl("  binned_dbdbaddv({}, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);".format(fold))
+  cog.outl("  binned_zbzbaddv({}, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);".format(fold))
   cog.outl("}")
   cog.outl("")
 ]]]*/
 static void binnedMPI_zbzbadd_2(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(2, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(2, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_3(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(3, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(3, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_4(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(4, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(4, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_5(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(5, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(5, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_6(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(6, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(6, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_7(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(7, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(7, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_8(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(8, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(8, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_9(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(9, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(9, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_10(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(10, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(10, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_11(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(11, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(11, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_12(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(12, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(12, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_13(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(13, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(13, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_14(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(14, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(14, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_15(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(15, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(15, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_16(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(16, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(16, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_17(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(17, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(17, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_18(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(18, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(18, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_19(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(19, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(19, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_20(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(20, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(20, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_21(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(21, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(21, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_22(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(22, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(22, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_23(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(23, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(23, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_24(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(24, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(24, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_25(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(25, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(25, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_26(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(26, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(26, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_27(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(27, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(27, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_28(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(28, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(28, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_29(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(29, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(29, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_30(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(30, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(30, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_31(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(31, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(31, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_32(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(32, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(32, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_33(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(33, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(33, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_34(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(34, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(34, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_35(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(35, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(35, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_36(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(36, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(36, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_37(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(37, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(37, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_38(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(38, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(38, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_39(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(39, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(39, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_40(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(40, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(40, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_41(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(41, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(41, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_42(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(42, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(42, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_43(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(43, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(43, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_44(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(44, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(44, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_45(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(45, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(45, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_46(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(46, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(46, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_47(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(47, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(47, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_48(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(48, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(48, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_49(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(49, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(49, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_50(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(50, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(50, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_51(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(51, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(51, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 //[[[end]]]
-- 
2.43.0


From e1a1a835561bfc9d77b18212f6975fb89e276629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:59 +0000
Subject: [PATCH 11/12] fix: keep the new scaling factor in the scaled sum of
 squares MPI operators

binned_dmdmaddsq returns the scaling factor of the result and leaves it to the
caller to store it.
---
 src/binnedMPI/DBDBADDSQ.ccog | 2 +-
 src/binnedMPI/SBSBADDSQ.ccog | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binnedMPI/DBDBADDSQ.ccog b/src/binnedMPI/DBDBADDSQ.ccog
index 00fd85c..6685a7c 100644
--- a/src/binnedMPI/DBDBADDSQ.ccog
+++ b/src/binnedMPI/DBDBADDSQ.ccog
@@ -9,7 +9,7 @@
 static inline void dbdbaddsqv(const int fold, const int N, const double *X, double *Y){
   int i;
   for(i = 0; i < N; i++, X += binned_dbnum(fold) + 1, Y += binned_dbnum(fold) + 1){
-    binned_dmdmaddsq(fold, X[0], (double_binned*)(X + 1), 1, (double_binned*)(X + 1 + fold), 1, Y[0], (double_binned*)(Y + 1), 1, (double_binned*)(Y + 1 + fold), 1);
+    Y[0] = binned_dmdmaddsq(fold, X[0], (double_binned*)(X + 1), 1, (double_binned*)(X + 1 + fold), 1, Y[0], (double_binned*)(Y + 1), 1, (double_binned*)(Y + 1 + fold), 1);
   }
 }
 
diff --git a/src/binnedMPI/SBSBADDSQ.ccog b/src/binnedMPI/SBSBADDSQ.ccog
index 20e0137..b531bb9 100644
--- a/src/binnedMPI/SBSBADDSQ.ccog
+++ b/src/binnedMPI/SBSBADDSQ.ccog
@@ -8,7 +8,7 @@
 static inline void sbsbaddsqv(const int fold, const int N, const float *X, float *Y){
   int i;
   for(i = 0; i < N; i++, X += binned_dbnum(fold) + 1, Y += binned_dbnum(fold) + 1){
-    binned_smsmaddsq(fold, X[0], (float_binned*)(X + 1), 1, (float_binned*)(X + 1 + fold), 1, Y[0], (float_binned*)(Y + 1), 1, (float_binned*)(Y + 1 + fold), 1);
+    Y[0] = binned_smsmaddsq(fold, X[0], (float_binned*)(X + 1), 1, (float_binned*)(X + 1 + fold), 1, Y[0], (float_binned*)(Y + 1), 1, (float_binned*)(Y + 1 + fold), 1);
   }
 }
 
-- 
2.43.0


From 89cccb22ca986a0f018e62ba167ca40791b1b004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:56 +0000
Subject: [PATCH 12/12] fix: error bounds hold for data at the bottom of the
 exponent range

The least error of a bin was multiplied by the ratio of the bins as well, so that the bound of a sum of tiny numbers fell below the error of the sum.
---
 src/binned/dbbound.c | 2 +-
 src/binned/sbbound.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binned/dbbound.c b/src/binned/dbbound.c
index cbdeea4..73d2c2a 100644
--- a/src/binned/dbbound.c
+++ b/src/binned/dbbound.c
@@ -19,5 +19,5 @@
  * @date   31 Jul 2015
  */
 double binned_dbbound(const int fold, const int N, const double X, const double S) {
-  return MAX(fabs(X), ldexp(0.5, DBL_MIN_EXP - 1)) * ldexp(0.5, (1 - fold) * DBWIDTH + 1) * N + ((7.0 * DBL_EPSILON) / (1.0 - 6.0 * sqrt(DBL_EPSILON) - 7.0 * DBL_EPSILON)) * fabs(S);
+  return MAX(fabs(X) * ldexp(0.5, (1 - fold) * DBWIDTH + 1), ldexp(0.5, DBL_MIN_EXP - 1)) * N + ((7.0 * DBL_EPSILON) / (1.0 - 6.0 * sqrt(DBL_EPSILON) - 7.0 * DBL_EPSILON)) * fabs(S);
 }
diff --git a/src/binned/sbbound.c b/src/binned/sbbound.c
index 05ca953..7207726 100644
--- a/src/binned/sbbound.c
+++ b/src/binned/sbbound.c
@@ -23,5 +23,5 @@
  * @date   21 May 2015
  */
 float binned_sbbound(const int fold, const int N, const float X, const float S) {
-  return (float)(MAX(fabs((double)X), ldexp(0.5, FLT_MIN_EXP - 1)) * ldexp(0.5, (1 - fold) * SBWIDTH + 1) * N + ((7.0 * FLT_EPSILON) / (1.0 - 6.0 * sqrt((double)FLT_EPSILON) - 7.0 * FLT_EPSILON)) * fabs((double)S));
+  return (float)(MAX(fabs((double)X) * ldexp(0.5, (1 - fold) * SBWIDTH + 1), ldexp(0.5, FLT_MIN_EXP - 1)) * N + ((7.0 * FLT_EPSILON) / (1.0 - 6.0 * sqrt((double)FLT_EPSILON) - 7.0 * FLT_EPSILON)) * fabs((double)S));
 }
-- 
2.43.0

