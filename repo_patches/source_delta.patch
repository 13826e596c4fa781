From a8ddfb70628bcbeb40fb989bdefa776008f2c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:07 +0000
Subject: [PATCH 01/10] fix: vst4_u8 stores the fourth vector at its own
 position, not past the destination

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 0e015e7..36df672 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1112,7 +1112,7 @@ void vst4_u8(uint8_t* ptr, uint8x8x4_t val)
         ptr[4 * i + 0] = val.val[0].val[i];
         ptr[4 * i + 1] = val.val[1].val[i];
         ptr[4 * i + 2] = val.val[2].val[i];
-        ptr[4 * i + 4] = val.val[3].val[i];
+        ptr[4 * i + 3] = val.val[3].val[i];
     }
 }
 void vst4_u16(uint16_t* ptr, uint16x4x4_t val)
-- 
2.43.0


From 797876097ca4d6bc0c3895991762609247e48a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:07 +0000
Subject: [PATCH 02/10] fix: vst4_u32 stores the fourth vector instead of
 overwriting the third

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 36df672..74eb61e 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1132,7 +1132,7 @@ void vst4_u32(uint32_t* ptr, uint32x2x4_t val)
         ptr[4 * i + 0] = val.val[0].val[i];
         ptr[4 * i + 1] = val.val[1].val[i];
         ptr[4 * i + 2] = val.val[2].val[i];
-        ptr[4 * i + 2] = val.val[3].val[i];
+        ptr[4 * i + 3] = val.val[3].val[i];
     }
 }
 
-- 
2.43.0


From 3667eeff3ea8f819e41bb93a581f3583d22fdfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:07 +0000
Subject: [PATCH 03/10] fix: vqtbl1_u8 returns 0 for out-of-range indices
 instead of reading past the table

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 74eb61e..8e67351 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4735,7 +4735,7 @@ uint8x8_t vqtbl1_u8(uint8x16_t t, uint8x8_t idx)
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
-        r.val[i] =  t.val[idx.val[i]];
+        r.val[i] =  idx.val[i] < 16 ? t.val[idx.val[i]] : 0;
     }
     return r;
 }
-- 
2.43.0


From 874681c4df5825cdcc74d64c59808939077e8f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:07 +0000
Subject: [PATCH 04/10] fix: vrev64q_s8 fills the upper half of its result

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 8e67351..1109981 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -5858,7 +5858,7 @@ float32x2_t vrev64_f32(float32x2_t vec)
 int8x16_t vrev64q_s8(int8x16_t vec)
 {
     int8x16_t r;
-    for (int i = 0; i < 8; i += 8)
+    for (int i = 0; i < 16; i += 8)
     {
         r.val[i + 0] = vec.val[i + 7];
         r.val[i + 1] = vec.val[i + 6];
-- 
2.43.0


From 82ad67b1225acc4ad0b567298f425ee02cb50386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:07 +0000
Subject: [PATCH 05/10] fix: vrev32_s8 no longer writes past its 8-lane result

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 1109981..822611f 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -5666,7 +5666,7 @@ uint8x16_t vrev16q_u8(uint8x16_t vec)
 int8x8_t vrev32_s8(int8x8_t vec)
 {
     int8x8_t r;
-    for (int i = 0; i < 16; i += 4)
+    for (int i = 0; i < 8; i += 4)
     {
         r.val[i + 0] = vec.val[i + 3];
         r.val[i + 1] = vec.val[i + 2];
-- 
2.43.0


From 965898ba6380fbfc1cd75d154ef1668b72528e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:07 +0000
Subject: [PATCH 06/10] fix: vshr_n_u16 accepts the legal shift counts 9 to 16

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 822611f..5abff91 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3769,9 +3769,9 @@ int8x8_t vshrn_n_s16(int16x8_t a, const int n)
 
 uint16x4_t vshr_n_u16(uint16x4_t v, const int n)
 {
-    if (n < 1 || n > 8)
+    if (n < 1 || n > 16)
     {
-        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        fprintf(stderr, "%s: param n not in range [1, 16]\n", __FUNCTION__);
         abort();
     }
 
-- 
2.43.0


From a04c04655c433debb24734c8cea723a627732618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:07 +0000
Subject: [PATCH 07/10] fix: vqshrun_n_s32 and vqshrun_n_s64 return their
 (truncating) result instead of uninitialised lanes

---
 neon_sim.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 5abff91..853ff70 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3899,7 +3899,7 @@ uint16x4_t vqshrun_n_s32(int32x4_t v, const int n)
     uint16x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        int32_t temp = (v.val[i] + (1 << (n - 1))) >> n;
+        int32_t temp = v.val[i] >> n;
         if (temp > UINT16_MAX)
         {
             temp = UINT16_MAX;
@@ -3908,6 +3908,7 @@ uint16x4_t vqshrun_n_s32(int32x4_t v, const int n)
         {
             temp = 0;
         }
+        D.val[i] = temp;
     }
     return D;
 }
@@ -3923,7 +3924,7 @@ uint32x2_t vqshrun_n_s64(int64x2_t v, const int n)
     uint32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        int64_t temp = (v.val[i] + (1 << (n - 1))) >> n;
+        int64_t temp = v.val[i] >> n;
         if (temp > UINT32_MAX)
         {
             temp = UINT32_MAX;
@@ -3932,6 +3933,7 @@ uint32x2_t vqshrun_n_s64(int64x2_t v, const int n)
         {
             temp = 0;
         }
+        D.val[i] = temp;
     }
     return D;
 }
-- 
2.43.0


From 2bcc79f6f7600ff54a50cce272f07ac6fee62170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:08 +0000
Subject: [PATCH 08/10] fix: vrecpeq_f32 no longer allocates memory (fails,
 leaks and is not reentrant otherwise)

---
 neon_sim.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 853ff70..a2e50d2 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -7,7 +7,6 @@
 #include <math.h>
 
 #include <algorithm>
-#include <string>
 
 ////// Load
 // vld1
@@ -4271,8 +4270,8 @@ struct float_parts
 
     int exp_bits[8];
     int fraction_bits[23];
-    std::string exp_bits_str = std::string(8, '0');
-    std::string fraction_bits_str = std::string(23, '0');
+    char exp_bits_str[9];
+    char fraction_bits_str[24];
 
 private:
     void int32_to_binary(int data, int* bits, int n = 32)
@@ -4318,10 +4317,12 @@ float_parts::float_parts(float v)
     {
         exp_bits_str[i] = exp_bits[i] + '0';
     }
+    exp_bits_str[8] = '\0';
     for (int i = 0; i < 23; i++)
     {
         fraction_bits_str[i] = fraction_bits[i] + '0';
     }
+    fraction_bits_str[23] = '\0';
 }
 
 float_parts::operator float() const
-- 
2.43.0


From 64b5c3faac912d7335eb88d7c9bbbea66b81e708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:08 +0000
Subject: [PATCH 09/10] fix: 64-bit saturating subtraction no longer goes
 through double

---
 neon_sim.cpp | 46 ++++++++++++----------------------------------
 1 file changed, 12 insertions(+), 34 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index a2e50d2..ed7456e 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2217,18 +2217,19 @@ int64x1_t vqsub_s64(int64x1_t N, int64x1_t M)
     int64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(INT64_MAX))
+        int64_t n = N.val[i];
+        int64_t m = M.val[i];
+        if (m < 0 && n > INT64_MAX + m)
         {
             D.val[i] = INT64_MAX;
         }
-        else if (temp < INT64_MIN)
+        else if (m > 0 && n < INT64_MIN + m)
         {
             D.val[i] = INT64_MIN;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = n - m;
         }
     }
     return D;
@@ -2427,19 +2428,7 @@ uint64x1_t vqsub_u64(uint64x1_t N, uint64x1_t M)
     uint64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(UINT64_MAX))
-        {
-            D.val[i] = UINT64_MAX;
-        }
-        else if (temp < 0)
-        {
-            D.val[i] = 0;
-        }
-        else
-        {
-            D.val[i] = temp;
-        }
+        D.val[i] = N.val[i] < M.val[i] ? 0 : N.val[i] - M.val[i];
     }
     return D;
 }
@@ -2516,18 +2505,19 @@ int64x2_t vqsubq_s64(int64x2_t N, int64x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(INT64_MAX))
+        int64_t n = N.val[i];
+        int64_t m = M.val[i];
+        if (m < 0 && n > INT64_MAX + m)
         {
             D.val[i] = INT64_MAX;
         }
-        else if (temp < INT64_MIN)
+        else if (m > 0 && n < INT64_MIN + m)
         {
             D.val[i] = INT64_MIN;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = n - m;
         }
     }
     return D;
@@ -2604,19 +2594,7 @@ uint64x2_t vqsubq_u64(uint64x2_t N, uint64x2_t M)
     uint64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(UINT64_MAX))
-        {
-            D.val[i] = UINT64_MAX;
-        }
-        else if (temp < 0)
-        {
-            D.val[i] = 0;
-        }
-        else
-        {
-            D.val[i] = temp;
-        }
+        D.val[i] = N.val[i] < M.val[i] ? 0 : N.val[i] - M.val[i];
     }
     return D;
 }
-- 
2.43.0


From e7d210639e780d6146f46ac8de16cfbaa4aa89a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 10/10] fix: vrev64q_s16 fills the upper half of its result

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index ed7456e..44e9808 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -5856,7 +5856,7 @@ int8x16_t vrev64q_s8(int8x16_t vec)
 int16x8_t vrev64q_s16(int16x8_t vec)
 {
     int16x8_t r;
-    for (int i = 0; i < 4; i += 4)
+    for (int i = 0; i < 8; i += 4)
     {
         r.val[i + 0] = vec.val[i + 3];
         r.val[i + 1] = vec.val[i + 2];
-- 
2.43.0

