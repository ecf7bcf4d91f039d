From 8dd42fded404059725fb181be1aa3c4e02bac5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 01/55] fix: keep the smallest return code when a comparison
 meets its tie

eq_zero/le_zero/ge_zero overwrote ret_c with 0 and so lost a negative code
that an external function had reported earlier in the sweep.
---
 ADOL-C/src/fo_rev.cpp   | 4 ++--
 ADOL-C/src/ho_rev.cpp   | 4 ++--
 ADOL-C/src/uni5_for.cpp | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index e67ffc1..5731249 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -588,7 +588,7 @@ int int_reverse_safe(
       arg = tape.get_locint_r();
 
 #if !defined(_NTIGHT_)
-      ret_c = 0;
+      MINDEC(ret_c, 0);
 #endif /* !_NTIGHT_ */
       break;
 
@@ -606,7 +606,7 @@ int int_reverse_safe(
 
 #if !defined(_NTIGHT_)
       if (TARG == 0)
-        ret_c = 0;
+        MINDEC(ret_c, 0);
 #endif /* !_NTIGHT_ */
       break;
 
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 079180b..e3e003a 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -519,7 +519,7 @@ int hov_ti_reverse(
     case eq_zero: /* eq_zero */
       arg = tape.get_locint_r();
 
-      ret_c = 0;
+      MINDEC(ret_c, 0);
       break;
 
       /*----------------------------------------------------------*/
@@ -535,7 +535,7 @@ int hov_ti_reverse(
       arg = tape.get_locint_r();
 
       if (*rpp_T[arg] == 0)
-        ret_c = 0;
+        MINDEC(ret_c, 0);
       break;
 
       /************************************************************/
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index d5b5313..32e6e27 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -1324,7 +1324,7 @@ int hov_forward(
         operation = end_of_tape;
         continue;
       }
-      ret_c = 0;
+      MINDEC(ret_c, 0);
 #endif /* !_NTIGHT_ */
       break;
 
@@ -1362,7 +1362,7 @@ int hov_forward(
         continue;
       }
       if (dp_T0[arg] == 0)
-        ret_c = 0;
+        MINDEC(ret_c, 0);
 #endif /* !_NTIGHT_ */
       break;
 
@@ -1400,7 +1400,7 @@ int hov_forward(
         continue;
       }
       if (dp_T0[arg] == 0)
-        ret_c = 0;
+        MINDEC(ret_c, 0);
 #endif /* !_NTIGHT_ */
       break;
 
-- 
2.43.0


From 9d265b5e541d6a2394fe37f090896b0cbff420cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 02/55] fix: first-order reverse keeps adjoints of a dependent
 that is used again

assign_dep overwrote the adjoint collected from operations recorded after
the >>= statement.
---
 ADOL-C/src/fo_rev.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 5731249..c9478d4 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -739,7 +739,11 @@ int int_reverse_safe(
 
       // Nested reverse calls for ext_diff use the public fov_reverse layout
       // [q][m], so they must not transpose incoming adjoint access here.
-      FOR_0_LE_l_LT_p ARES_INC = LAGRANGE(l, indexd);
+#if defined(_INT_REV_)
+      FOR_0_LE_l_LT_p ARES_INC |= LAGRANGE(l, indexd);
+#else
+      FOR_0_LE_l_LT_p ARES_INC += LAGRANGE(l, indexd);
+#endif
       indexd--;
       break;
 
-- 
2.43.0


From 811dbe37c713bec06bd35ecb392c74e6adb1e009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 03/55] fix: first-order reverse clears the adjoint of an
 assigned independent

assign_ind and ref_assign_ind overwrite their result, so its adjoint must
not reach the operations recorded before on the same location.
---
 ADOL-C/src/fo_rev.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index c9478d4..2789b75 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -711,17 +711,29 @@ int int_reverse_safe(
       // Nested reverse calls for ext_diff use the public fov_reverse layout
       // [q][n], so they must not transpose result access here.
       if (tape.nestedReverseEval()) {
-        FOR_0_LE_l_LT_p RESULTS(l, indexi) += static_cast<bitword_t>(ARES_INC);
+        FOR_0_LE_l_LT_p {
+          RESULTS(l, indexi) += static_cast<bitword_t>(*Ares);
+          ARES_INC = 0;
+        }
       } else {
-        FOR_0_LE_l_LT_p RESULTS(l, indexi) = static_cast<bitword_t>(ARES_INC);
+        FOR_0_LE_l_LT_p {
+          RESULTS(l, indexi) = static_cast<bitword_t>(*Ares);
+          ARES_INC = 0;
+        }
       }
 #else
       // Nested reverse calls for ext_diff use the public fov_reverse layout
       // [q][n], so they must not transpose result access here.
       if (tape.nestedReverseEval()) {
-        FOR_0_LE_l_LT_p RESULTS(l, indexi) += ARES_INC;
+        FOR_0_LE_l_LT_p {
+          RESULTS(l, indexi) += *Ares;
+          ARES_INC = 0.0;
+        }
       } else {
-        FOR_0_LE_l_LT_p RESULTS(l, indexi) = ARES_INC;
+        FOR_0_LE_l_LT_p {
+          RESULTS(l, indexi) = *Ares;
+          ARES_INC = 0.0;
+        }
       }
 #endif
 #if !defined(_NTIGHT_)
@@ -2192,9 +2204,15 @@ int int_reverse_safe(
 
       ASSIGN_A(Ares, ADJOINT_BUFFER[res])
 #if defined(_INT_REV_)
-      FOR_0_LE_l_LT_p RESULTS(l, indexi) = static_cast<bitword_t>(ARES_INC);
+      FOR_0_LE_l_LT_p {
+        RESULTS(l, indexi) = static_cast<bitword_t>(*Ares);
+        ARES_INC = 0;
+      }
 #else
-      FOR_0_LE_l_LT_p RESULTS(l, indexi) = ARES_INC;
+      FOR_0_LE_l_LT_p {
+        RESULTS(l, indexi) = *Ares;
+        ARES_INC = 0.0;
+      }
 #endif
 
       rp_T[res] = tape.get_taylor();
-- 
2.43.0


From 56b0c72e3bb9ae175bfe6470dc77f49fb8a6536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 04/55] fix: reverse sweep of floor compares with its own
 argument

---
 ADOL-C/src/fo_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 2789b75..d250080 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1749,7 +1749,7 @@ int int_reverse_safe(
       ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
 
 #if !defined(_NTIGHT_)
-      coval = (coval != floor(TARG1));
+      coval = (coval != floor(TARG));
 #endif /* !_NTIGHT_ */
 
       FOR_0_LE_l_LT_p {
-- 
2.43.0


From b54ec6c3f0432d8040dd63d19b4defed182b7394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 05/55] fix: reverse sweep reports a changed conditional
 assignment in the right branch

In the branch where the condition is not met the code 2 was set when the
recorded condition was not met either, i.e. when nothing had changed.
---
 ADOL-C/src/fo_rev.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index d250080..2b57fb7 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1806,7 +1806,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval <= 0.0) && (*Ares != 0))
+            if ((coval > 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -1817,7 +1817,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval > 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -2463,7 +2463,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval <= 0.0) && (*Ares != 0))
+            if ((coval > 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -2474,7 +2474,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval > 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -2521,7 +2521,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval < 0.0) && (*Ares != 0))
+            if ((coval >= 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -2532,7 +2532,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval >= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
-- 
2.43.0


From c870b04a679cfae7c3b64a5a646373f5d1406d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 06/55] fix: reverse sweep of vec_copy, vec_dot and vec_axpy

The results' adjoints were not cleared, and the overwritten values were
restored in the order in which the forward sweep had stored them instead of
the opposite one.
---
 ADOL-C/src/fo_rev.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 2b57fb7..e08fa6e 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2359,11 +2359,12 @@ int int_reverse_safe(
           ARES_INC = 0.0;
 #endif
         }
-
+      }
 #if !defined(_NTIGHT_)
-        rp_T[res + qq] = tape.get_taylor();
+      /* the values were stored in ascending order */
+      for (locint qq = size; qq > 0; qq--)
+        rp_T[res + qq - 1] = tape.get_taylor();
 #endif /* !_NTIGHT_ */
-      }
 
       break;
 
@@ -2388,6 +2389,12 @@ int int_reverse_safe(
         arg2++;
         arg1++;
       }
+      ASSIGN_A(Ares, ADJOINT_BUFFER[res])
+#if defined(_INT_REV_)
+      FOR_0_LE_l_LT_p ARES_INC = 0;
+#else
+      FOR_0_LE_l_LT_p ARES_INC = 0.0;
+#endif
 #if !defined(_NTIGHT_)
       rp_T[res] = tape.get_taylor();
 #endif /* !_NTIGHT_ */
@@ -2408,20 +2415,24 @@ int int_reverse_safe(
 #if defined(_INT_REV_)
           AARG_INC |= *Ares;
           AARG2_INC |= *Ares;
-          AARG1_INC |= ARES_INC;
+          AARG1_INC |= *Ares;
+          ARES_INC = 0;
 #else
           AARG2_INC += *Ares;
           AARG1_INC += (*Ares) * TARG;
-          AARG_INC += ARES_INC * TARG1;
+          AARG_INC += *Ares * TARG1;
+          ARES_INC = 0.0;
 #endif
         }
-#if !defined(_NTIGHT_)
-        rp_T[res] = tape.get_taylor();
-#endif /* !_NTIGHT_ */
         arg2++;
         arg1++;
         res++;
       }
+#if !defined(_NTIGHT_)
+      /* the values were stored in ascending order */
+      for (locint qq = size; qq > 0; qq--)
+        rp_T[--res] = tape.get_taylor();
+#endif /* !_NTIGHT_ */
       break;
 
     case ref_cond_assign: /* cond_assign */
-- 
2.43.0


From 7c8309680a714ebb02aa0fdac0cf1c0d67beaebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 07/55] fix: assigning an advector element to itself keeps its
 adjoint

Which element a reference denotes is only known during the sweep, so v[i]=v[k]
with i==k has to be handled there.
---
 ADOL-C/src/fo_rev.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index e08fa6e..7932ae7 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2181,11 +2181,13 @@ int int_reverse_safe(
 
       FOR_0_LE_l_LT_p {
 #if defined(_INT_REV_)
-        AARG_INC |= *Ares;
+        size_t aTmp = *Ares;
         ARES_INC = 0;
+        AARG_INC |= aTmp;
 #else
-        AARG_INC += *Ares;
+        revreal aTmp = *Ares;
         ARES_INC = 0.0;
+        AARG_INC += aTmp;
 #endif
       }
 
-- 
2.43.0


From 83ebc6b51e85f4562498bc3668d79cbe15afb1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 08/55] fix: reverse sweep of cond_eq_assign reports a change
 in the right branch

---
 ADOL-C/src/fo_rev.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 7932ae7..1309f3a 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1870,7 +1870,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval < 0.0) && (*Ares != 0))
+            if ((coval >= 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -1881,7 +1881,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval >= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
-- 
2.43.0


From 6bc67e296e305167278f8ef869a2b9ef50412563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 09/55] fix: vector reverse of subscript handles every
 direction

The adjoint of the result was read and cleared in the first direction only.
---
 ADOL-C/src/fo_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 1309f3a..2a20f0a 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2043,7 +2043,7 @@ int int_reverse_safe(
         ARES_INC = 0;
 #else
         AARG1_INC += *Ares;
-        *Ares = 0.0;
+        ARES_INC = 0.0;
 #endif
       }
       rp_T[res] = tape.get_taylor();
-- 
2.43.0


From 4a0a39d1591e1cce6c1bce239c7dad504c1278e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 10/55] fix: vector operations count eq_prod, not dependents

---
 ADOL-C/include/adolc/valuetape/valuetape.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index d3f45f4..3d70d30 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -248,7 +248,7 @@ public:
   size_t num_eq_prod() const { return tapeInfos_.num_eq_prod; }
   void num_eq_prod(size_t num) { tapeInfos_.num_eq_prod = num; }
   void increment_num_eq_prod() { ++(tapeInfos_.num_eq_prod); }
-  void add_num_eq_prod(size_t val) { tapeInfos_.numDeps += val; }
+  void add_num_eq_prod(size_t val) { tapeInfos_.num_eq_prod += val; }
 
   void increment_numInds() { ++tapeInfos_.numInds; }
   size_t numInds() const { return tapeInfos_.numInds; }
-- 
2.43.0


From d64af37400553c766e6b42f3ad3d6823ee8136e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 11/55] fix: vec_copy keeps the overwritten value of every
 element

---
 ADOL-C/src/adouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index cd5d856..ef7ea7c 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -5573,7 +5573,7 @@ void adolc_vec_copy(adouble *const dest, const adouble *const src,
       tape.increment_numTays_Tape();
 
       if (tape.keepTaylors())
-        tape.write_scaylor(dest[0].value());
+        tape.write_scaylor(tape.get_ad_value(dest[0].loc() + i));
     }
   }
   for (size_t i = 0; i < size; ++i)
-- 
2.43.0


From 7601152f5edc3e0206f8e9dcb907cb855a265b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 12/55] fix: vec_axpy keeps the overwritten values of its
 result

---
 ADOL-C/src/adouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index ef7ea7c..87c1c48 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -5638,7 +5638,7 @@ void adolc_vec_axpy(adouble *const res, const adouble &a,
       tape.increment_numTays_Tape();
 
       if (tape.keepTaylors())
-        tape.write_scaylor(tape.get_ad_value(vec_a[0].loc() + i));
+        tape.write_scaylor(tape.get_ad_value(res[0].loc() + i));
     }
   }
   for (size_t i = 0; i < size; ++i)
-- 
2.43.0


From 362c28b76a0ed5953ee15ad39a351eca42344f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 13/55] fix: tight bit-pattern forward reads the constant of a
 conditional assignment once

---
 ADOL-C/src/uni5_for.cpp | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 32e6e27..953e855 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -4139,8 +4139,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
       else
@@ -4246,8 +4244,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
       else
@@ -4320,8 +4316,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
 #endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
@@ -4381,8 +4375,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
 #endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
@@ -5199,8 +5191,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-        coval = tape.get_val_f();
-
         if (dp_T0[arg] > 0)
           FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
         else
@@ -5298,8 +5288,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-        coval = tape.get_val_f();
-
         if (dp_T0[arg] >= 0)
           FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
         else
@@ -5372,8 +5360,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
 
@@ -5432,8 +5418,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
 
-- 
2.43.0


From 7d910b3c98a9949bee98d182a533186571dfc465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 14/55] fix: safe bit-pattern forward of min handles every word

---
 ADOL-C/src/uni5_for.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 953e855..9a4c392 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3819,7 +3819,7 @@ int hov_forward(
       dp_T0[res] = MIN_ADOLC(dp_T0[arg1], dp_T0[arg2]);
 #endif /* _TIGHT_ */
 #ifdef _NTIGHT_
-      TRES_INC = TARG1_INC | TARG2_INC;
+      FOR_0_LE_l_LT_p TRES_INC = TARG1_INC | TARG2_INC;
 #endif /* _NTIGHT_ */
 #else
       Tqo = nullptr;
-- 
2.43.0


From af15fbf096e8f04f017b9b432885fc2e6e4a31c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 15/55] fix: safe bit-pattern forward of one-armed conditional
 assignments keeps the old pattern

---
 ADOL-C/src/uni5_for.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 9a4c392..6903fa8 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -4317,8 +4317,10 @@ int hov_forward(
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
       if (dp_T0[arg] > 0)
-#endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
+#else
+      FOR_0_LE_l_LT_pk TRES_INC |= TARG1_INC;
+#endif /* _TIGHT_ */
 
 #ifdef _TIGHT_
       if (dp_T0[arg] > 0) {
@@ -4376,8 +4378,10 @@ int hov_forward(
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
       if (dp_T0[arg] >= 0)
-#endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
+#else
+      FOR_0_LE_l_LT_pk TRES_INC |= TARG1_INC;
+#endif /* _TIGHT_ */
 
 #ifdef _TIGHT_
       if (dp_T0[arg] >= 0) {
-- 
2.43.0


From 032782586683d2640d771230ecfc049e286c244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 16/55] fix: gen_quad consumes both constants in the safe
 bit-pattern sweeps

---
 ADOL-C/src/uni5_for.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 6903fa8..a06bb52 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3657,6 +3657,8 @@ int hov_forward(
         tape.end_sweep();
         return -2;
       }
+#else
+      tape.get_val_f();
 #endif /* !_NTIGHT_ */
 
 #if !defined(_NTIGHT_)
-- 
2.43.0


From cb3ec505503d9cb2e0a9e162c7f2ab3050bcae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 17/55] fix: nested bit-pattern reverse joins patterns with or

---
 ADOL-C/src/fo_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 2a20f0a..5b93b3b 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -712,7 +712,7 @@ int int_reverse_safe(
       // [q][n], so they must not transpose result access here.
       if (tape.nestedReverseEval()) {
         FOR_0_LE_l_LT_p {
-          RESULTS(l, indexi) += static_cast<bitword_t>(*Ares);
+          RESULTS(l, indexi) |= static_cast<bitword_t>(*Ares);
           ARES_INC = 0;
         }
       } else {
-- 
2.43.0


From 3f36c64ea88be7fd1e6bb4c8379efae6516f36b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 18/55] fix: tight bit-pattern reverse takes back the kept
 value of div_a_a, div_d_a and pow

---
 ADOL-C/src/fo_rev.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 5b93b3b..6b09d62 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1129,11 +1129,15 @@ int int_reverse_safe(
       ASSIGN_A(Aarg1, ADJOINT_BUFFER[arg1])
 
       /* olvo 980922 changed order to allow x=y/x */
-#if !defined(_NTIGHT_) && !defined(_INT_REV_)
+#if !defined(_NTIGHT_)
+#if !defined(_INT_REV_)
       double r_0 = -TRES;
+#endif
       rp_T[res] = tape.get_taylor();
+#if !defined(_INT_REV_)
       double r0 = 1.0 / TARG2;
       r_0 *= r0;
+#endif
 #endif /* !_NTIGHT_ */
 
       FOR_0_LE_l_LT_p {
@@ -1164,12 +1168,16 @@ int int_reverse_safe(
       ASSIGN_A(Ares, ADJOINT_BUFFER[res])
       ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
 
-#if !defined(_NTIGHT_) && !defined(_INT_REV_)
+#if !defined(_NTIGHT_)
+#if !defined(_INT_REV_)
       /* olvo 980922 changed order to allow x=d/x */
       double r0 = -TRES;
+#endif
       if (arg == res)
         rp_T[arg] = tape.get_taylor();
+#if !defined(_INT_REV_)
       r0 /= TARG;
+#endif
 #endif /* !_NTIGHT_ */
 
       FOR_0_LE_l_LT_p {
@@ -1404,15 +1412,19 @@ int int_reverse_safe(
       ASSIGN_A(Ares, ADJOINT_BUFFER[res])
       ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
 
-#if !defined(_NTIGHT_) && !defined(_INT_REV_)
+#if !defined(_NTIGHT_)
+#if !defined(_INT_REV_)
       /* olvo 980921 changed order to allow x=pow(x,n) */
       double r0 = TRES; // r0 = pow(x, n)
+#endif
       if (arg == res)
         rp_T[arg] = tape.get_taylor();
+#if !defined(_INT_REV_)
       if (TARG == 0.0)
         r0 = 0.0;
       else
         r0 *= coval / TARG; // r0 = r0 * n / x
+#endif
 #endif                      /* !_NTIGHT_ */
 
       FOR_0_LE_l_LT_p {
-- 
2.43.0


From 6970fe3d81a36e8f18ec349a4bdfdaa18a9f99bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 19/55] fix: safe bit-pattern reverse of one-armed conditional
 assignments handles every word and keeps the pattern

---
 ADOL-C/src/fo_rev.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 6b09d62..a4d044f 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1947,8 +1947,8 @@ int int_reverse_safe(
 #else
       if (res != arg1)
         FOR_0_LE_l_LT_p {
-          AARG1 |= *Ares;
-          ARES_INC = 0;
+          AARG1_INC |= *Ares;
+          Ares++; /* the old value may have been kept */
         }
 #endif /* !_NTIGHT_ */
       break;
@@ -1988,8 +1988,8 @@ int int_reverse_safe(
 #else
       if (res != arg1)
         FOR_0_LE_l_LT_p {
-          AARG1 |= *Ares;
-          ARES_INC = 0;
+          AARG1_INC |= *Ares;
+          Ares++; /* the old value may have been kept */
         }
 #endif /* !_NTIGHT_ */
       break;
-- 
2.43.0


From 82c2ac33c50f3c9467abae901ca702defe1d021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:56 +0000
Subject: [PATCH 20/55] fix: tight bit-pattern forward of referenced
 conditional assignments stays within its rows

---
 ADOL-C/src/uni5_for.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index a06bb52..3718946 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5213,7 +5213,6 @@ int hov_forward(
             MINDEC(ret_c, 0);
           dp_T0[res] = dp_T0[arg2];
         }
-        FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC | TARG2_INC;
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
         if (dp_T0[arg] > 0)
@@ -5308,7 +5307,6 @@ int hov_forward(
             MINDEC(ret_c, 2);
           dp_T0[res] = dp_T0[arg2];
         }
-        FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC | TARG2_INC;
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
         if (dp_T0[arg] >= 0)
-- 
2.43.0


From 41358edcf64606ebc6529685072ff8bd612d2410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 21/55] fix: tight bit-pattern forward of min at a tie keeps
 the patterns of both operands

At a tie the sweep compared the two bit patterns as numbers and kept the
larger or smaller one, so a dependency of the result could be lost. The
derivative of min there can follow either operand.
---
 ADOL-C/src/uni5_for.cpp | 34 ++++------------------------------
 1 file changed, 4 insertions(+), 30 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 3718946..5a96082 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -907,11 +907,6 @@ int hov_forward(
   size_t *Targ = nullptr;
   size_t *Targ1 = nullptr;
   size_t *Targ2 = nullptr;
-#ifdef _TIGHT_
-  size_t *Tqo = nullptr;
-  size_t *Targ1OP = nullptr;
-  size_t *Targ2OP = nullptr;
-#endif
 
 #define T0res T0temp
 #else
@@ -3790,33 +3785,12 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      Tqo = nullptr;
       if (dp_T0[arg1] > dp_T0[arg2])
-        Tqo = Targ2;
+        FOR_0_LE_l_LT_p TRES_INC = TARG2_INC;
       else if (dp_T0[arg1] < dp_T0[arg2])
-        Tqo = Targ1;
-
-      FOR_0_LE_l_LT_p {
-        Targ = Tqo;
-        if (Targ == nullptr) /* e.g. T0[arg1] == T0[arg2] */
-        {
-          Targ1OP = Targ1;
-          Targ2OP = Targ2;
-          if (TARG1 > TARG2)
-            Targ = Targ2OP;
-          else if (TARG1 < TARG2)
-            Targ = Targ1OP;
-          Targ1++;
-          Targ2++;
-          if (Targ == nullptr) /* e.g. both are equal */
-            Targ = Targ1OP;
-        }
-
-        TRES_INC = TARG_INC;
-
-        if (Tqo)
-          Tqo++;
-      }
+        FOR_0_LE_l_LT_p TRES_INC = TARG1_INC;
+      else /* both operands can decide the derivative */
+        FOR_0_LE_l_LT_p TRES_INC = TARG1_INC | TARG2_INC;
 
       dp_T0[res] = MIN_ADOLC(dp_T0[arg1], dp_T0[arg2]);
 #endif /* _TIGHT_ */
-- 
2.43.0


From 5f52cda1a9b47496ec1f2a56491c639a922ea969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 22/55] fix: tight bit-pattern reverse of fabs at zero keeps
 the dependency of its argument

The result's pattern was cleared but not handed on, so the pattern missed
the argument although fabs is not constant around zero.
---
 ADOL-C/src/fo_rev.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index a4d044f..3dd6abe 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1707,6 +1707,9 @@ int int_reverse_safe(
 #endif // _INT_REV_
           if (aTmp != 0)
             MINDEC(ret_c, 1);
+#if defined(_INT_REV_)
+          AARG_INC |= aTmp;
+#endif // _INT_REV_
         }
 #else
       FOR_0_LE_l_LT_p {
-- 
2.43.0


From d5ea827bc35fb2eb67fe58a7463bcbb354cc269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 23/55] fix: pow with a whole exponent at a zero base: take the
 integer branch, use each direction's own coefficients

---
 ADOL-C/src/uni5_for.cpp | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 5a96082..315724b 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3396,7 +3396,7 @@ int hov_forward(
           FOR_0_LE_l_LT_pk TRES_INC = tape.make_nan();
         else {
           /* coval not a whole number */
-          if (coval - floor(coval != 0.0) != 0) {
+          if (coval - floor(coval) != 0) {
             FOR_0_LE_l_LT_p {
               FOR_0_LE_i_LT_k {
                 if (coval - i > 1)
@@ -3418,40 +3418,32 @@ int hov_forward(
               INC_pk_1(Targ) INC_pk_1(Tres)
 
                   FOR_p_GT_l_GE_0 {
+#if defined(_HIGHER_ORDER_)
+                zOP = dp_z + k - 1;
+                for (int j = k - 1; j >= 0; j--) {
+                  (*zOP--) = (*Targ--);
+                }
                 FOR_k_GT_i_GE_0 {
                   *Tres = 0;
-                  DEC_TRES_FO
-#if defined(_HIGHER_ORDER_)
-                  if (i == k - 1) {
-                    zOP = dp_z + k - 1;
-                    for (int j = k - 1; j >= 0; j--) {
-                      (*zOP--) = (*Targ--);
-                    }
-                  }
                   for (int j = 0; j < i; j++) {
                     *Tres += dp_z[j] * dp_z[i - j - 1];
                   }
                   Tres--;
-#endif /* _HIGHER_ORDER_ */
                 }
-              }
-              for (int ii = 3; ii <= coval; ii++) {
-                ASSIGN_T(Tres, TAYLOR_BUFFER[res])
-                ASSIGN_T(Targ, TAYLOR_BUFFER[arg])
-                INC_pk_1(Targ) INC_pk_1(Tres)
-
-                    FOR_p_GT_l_GE_0 {
+                for (int ii = 3; ii <= coval; ii++) {
+                  Tres += k;
                   FOR_k_GT_i_GE_0 {
-                    *Tres = 0;
-                    DEC_TRES_FO
-#if defined(_HIGHER_ORDER_)
                     TresOP = Tres - i;
+                    double sum = 0;
                     for (int j = 0; j < i; j++)
-                      *Tres += TresOP[j] * dp_z[i - j - 1];
-                    Tres--;
-#endif /* _HIGHER_ORDER_ */
+                      sum += TresOP[j] * dp_z[i - j - 1];
+                    *Tres-- = sum;
                   }
                 }
+#else
+                *Tres = 0;
+                DEC_TRES_FO
+#endif /* _HIGHER_ORDER_ */
               }
             }
           }
-- 
2.43.0


From 5c9ff78bc573472ad2ab21b9a7eab4fcc00b2e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 24/55] fix: reverse mode of pow with exponent 1 at a zero
 base: the derivative is 1

---
 ADOL-C/src/fo_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 3dd6abe..6806318 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1421,7 +1421,7 @@ int int_reverse_safe(
         rp_T[arg] = tape.get_taylor();
 #if !defined(_INT_REV_)
       if (TARG == 0.0)
-        r0 = 0.0;
+        r0 = coval == 1.0 ? 1.0 : 0.0;
       else
         r0 *= coval / TARG; // r0 = r0 * n / x
 #endif
-- 
2.43.0


From d8597201e339909c922176862ec4d82e8efdcf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:45 +0000
Subject: [PATCH 25/55] fix: higher-order reverse clears the adjoint of an
 independent after delivering it

---
 ADOL-C/src/ho_rev.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index e3e003a..310a82c 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -622,6 +622,10 @@ int hov_ti_reverse(
           RESULTS(l, indexi, i) = ARES_INC;
       }
 
+      /* the location may hold another variable before */
+      ASSIGN_A(Ares, rpp_A[res])
+      FOR_0_LE_l_LT_pk1 ARES_INC = 0.0;
+
       GET_TAYL(res, k, p)
       indexi--;
       break;
@@ -2307,6 +2311,10 @@ int hov_ti_reverse(
           RESULTS(l, indexi, i) = ARES_INC;
       }
 
+      /* the location may hold another variable before */
+      ASSIGN_A(Ares, rpp_A[res])
+      FOR_0_LE_l_LT_pk1 ARES_INC = 0.0;
+
       GET_TAYL(res, k, p)
       indexi--;
       break;
-- 
2.43.0


From 8caa56cce524345f4889eb59843e67b4aed58a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:45 +0000
Subject: [PATCH 26/55] fix: higher-order reverse adds the weight of a
 dependent to its adjoint instead of overwriting it

---
 ADOL-C/src/ho_rev.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 310a82c..4b1f237 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -642,11 +642,12 @@ int hov_ti_reverse(
         ARES_INC_O;
         dc = -1;
         for (int i = 0; i < k; i++) {
-          ARES_INC = LAGRANGE(l, indexd, i);
+          ARES_INC += LAGRANGE(l, indexd, i);
           if (LAGRANGE(l, indexd, i) != 0.0)
             dc = i;
         }
-        AARG = (dc < 0) ? 0.0 : (dc > 0) ? 2.0 : 1.0;
+        comp = (dc < 0) ? 0.0 : (dc > 0) ? 2.0 : 1.0;
+        MAXDEC(AARG, comp);
         HOV_INC(Aarg, k1)
       }
       indexd--;
-- 
2.43.0


From c343c515462d994ece291c1866b03ed8d50f2d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:45 +0000
Subject: [PATCH 27/55] fix: hos_ov_reverse skips the Taylor coefficients of
 directions without adjoint

---
 ADOL-C/src/ho_rev.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 4b1f237..dc2a8cf 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -755,6 +755,8 @@ int hov_ti_reverse(
         if (0 == ARES) {
           HOV_INC(Aarg, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Tres, k)
+          HOS_OV_INC(Targ, k)
         } else {
           MAXDEC(ARES, 2.0);
           MAXDEC(AARG, ARES);
@@ -942,6 +944,8 @@ int hov_ti_reverse(
           HOV_INC(Aarg1, k1)
           HOV_INC(Aarg2, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Targ1, k)
+          HOS_OV_INC(Targ2, k)
         } else {
           /* The output includes the functional relation between
              input and output.  For multiplication this is at
@@ -1008,6 +1012,9 @@ int hov_ti_reverse(
           HOV_INC(Aarg1, k1)
           HOV_INC(Aarg2, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Targ1, k)
+          HOS_OV_INC(Targ2, k)
+          HOS_OV_INC(Tres, k)
         } else {
           comp = (ARES > 2.0) ? ARES : 2.0;
           ARES_INC = comp;
@@ -1057,6 +1064,9 @@ int hov_ti_reverse(
           HOV_INC(Aarg1, k1)
           HOV_INC(Aarg2, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Targ1, k)
+          HOS_OV_INC(Targ2, k)
+          HOS_OV_INC(Tres, k)
         } else {
           comp = (ARES > 2.0) ? ARES : 2.0;
           ARES_INC = comp;
@@ -1133,6 +1143,8 @@ int hov_ti_reverse(
           HOV_INC(Ares, k1)
           HOV_INC(Aarg1, k1)
           HOV_INC(Aarg2, k1)
+          HOS_OV_INC(Tres, k)
+          HOS_OV_INC(Targ2, k)
         } else {
           double aTmp = ARES;
           ARES_INC = 0.0;
@@ -1186,6 +1198,8 @@ int hov_ti_reverse(
         if (0 == ARES) {
           HOV_INC(Ares, k1)
           HOV_INC(Aarg, k1)
+          HOS_OV_INC(Tres, k)
+          HOS_OV_INC(Targ, k)
         } else {
           double aTmp = ARES;
           ARES_INC = 0.0;
@@ -1287,6 +1301,7 @@ int hov_ti_reverse(
         if (0 == ARES) {
           HOV_INC(Aarg, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Tres, k)
         } else {
           double aTmp = ARES;
           ARES_INC = 0.0;
@@ -1319,6 +1334,7 @@ int hov_ti_reverse(
         if (0 == ARES) {
           HOV_INC(Aarg1, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Targ2, k)
         } else {
           double aTmp = ARES;
           ARES_INC = 0.0;
@@ -1353,6 +1369,7 @@ int hov_ti_reverse(
         if (0 == ARES) {
           HOV_INC(Aarg1, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Targ2, k)
         } else {
           double aTmp = ARES;
           ARES_INC = 0.0;
@@ -1396,6 +1413,7 @@ int hov_ti_reverse(
         if (0 == ARES) {
           HOV_INC(Aarg1, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Targ2, k)
         } else {
           double aTmp = ARES;
           ARES_INC = 0.0;
@@ -1428,6 +1446,7 @@ int hov_ti_reverse(
         if (0 == ARES) {
           HOV_INC(Aarg, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Targ, k)
         } else {
           double aTmp = ARES;
           ARES_INC = 0.0;
@@ -1470,6 +1489,8 @@ int hov_ti_reverse(
         if (0 == ARES) {
           HOV_INC(Aarg, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Tres, k)
+          HOS_OV_INC(Targ, k)
         } else {
           double aTmp = ARES;
           ARES_INC = 0.0;
@@ -1557,6 +1578,7 @@ int hov_ti_reverse(
         if (0 == ARES) {
           HOV_INC(Aarg, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Tres, k)
         } else {
           double aTmp = ARES;
           ARES_INC = 0.0;
@@ -1603,6 +1625,7 @@ int hov_ti_reverse(
         if (0 == ARES) {
           HOV_INC(Aarg1, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Targ2, k)
         } else {
           double aTmp = ARES;
           ARES_INC = 0.0;
@@ -2424,6 +2447,8 @@ int hov_ti_reverse(
         if (0 == ARES) {
           HOV_INC(Aarg, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Tres, k)
+          HOS_OV_INC(Targ, k)
         } else {
           MAXDEC(ARES, 2.0);
           MAXDEC(AARG, ARES);
@@ -2490,6 +2515,8 @@ int hov_ti_reverse(
             HOV_INC(Aarg1, k1)
             HOV_INC(Aarg2, k1)
             HOV_INC(Ares, k1)
+            HOS_OV_INC(Targ1, k)
+            HOS_OV_INC(Targ2, k)
           } else {
             comp = (ARES > 2.0) ? ARES : 2.0;
             ARES_INC = comp;
@@ -2531,6 +2558,8 @@ int hov_ti_reverse(
           HOV_INC(Aarg1, k1)
           HOV_INC(Aarg2, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Targ, k)
+          HOS_OV_INC(Targ1, k)
         } else {
           comp = (ARES > 2.0) ? ARES : 2.0;
           MAXDEC(AARG2, ARES);
-- 
2.43.0


From 3d0992f6df551abd3df069f6896ac5637d28b351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:45 +0000
Subject: [PATCH 28/55] fix: higher-order reverse of pow at small and zero
 bases keeps the adjoint of the base and supports every whole exponent

---
 ADOL-C/src/ho_rev.cpp | 42 +++++++++++++-----------------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index dc2a8cf..cbcd4f6 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1499,7 +1499,7 @@ int hov_ti_reverse(
           AARG_INC_O;
 
           VEC_COMPUTED_CHECK
-          if (fabs(Targ[0]) > ADOLC_EPS) {
+          if (Targ[0] != 0.0) {
             divide(k, Tres, Targ, rp_Ttemp);
             for (int i = 0; i < k; i++) {
               rp_Ttemp[i] *= coval;
@@ -1516,39 +1516,23 @@ int hov_ti_reverse(
               /* coval not a whole number */
               if (coval - floor(coval) != 0) {
                 for (int i = 0; i < k; i++) {
-                  if (coval - i > 1) {
-                    Aarg[i] = 0;
-                    Ares[i] = 0;
-                  }
-                  if ((coval - i < 1) && (coval - i > 0)) {
+                  Ares[i] = 0;
+                  if ((coval - i < 1) && (coval - i > 0))
                     Aarg[i] = tape.make_inf();
-                    Ares[i] = 0;
-                  }
-                  if (coval - i < 0) {
+                  if (coval - i < 0)
                     Aarg[i] = tape.make_nan();
-                    Ares[i] = 0;
-                  }
                 }
               } else {
-                if (coval == 1) {
-                  for (int i = 0; i < k; i++) { /* ! no temporary */
-                    Aarg[i] += Ares[i];
-                    Ares[i] = 0.0;
-                  }
-                } else {
-                  /* coval is an int > 1 */
-                  /* the following is not efficient but at least it works */
-                  /* it reformulates x^n into x* ... *x n times */
-
-                  copyAndZeroset(k, Ares, rp_Atemp);
-                  inconv(k, rp_Atemp, Targ, Aarg);
-                  inconv(k, rp_Atemp, Targ, Aarg);
-                  if (coval == 3) {
-                    conv(k, Aarg, Targ, rp_Atemp);
-                    for (int i = 0; i < k; i++)
-                      Aarg[i] = 2.0 * rp_Atemp[i];
-                  }
+                /* coval is an int >= 1: the partial is coval * x^(coval - 1),
+                   whose first coval - 1 coefficients vanish */
+                for (int i = 0; i < k; i++)
+                  rp_Ttemp[i] = 0.0;
+                if (coval - 1 < k) {
+                  rp_Ttemp[0] = coval;
+                  for (int i = 1; i < coval; i++)
+                    conv(k, rp_Ttemp, Targ, rp_Ttemp);
                 }
+                inconv0(k, Ares, rp_Ttemp, Aarg);
               }
             }
           }
-- 
2.43.0


From 127e8a7f72f6a40fd69a7b27eede8badf8ecce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:45 +0000
Subject: [PATCH 29/55] fix: hov_reverse of fabs reads past the end of the
 signs of the directions

---
 ADOL-C/src/ho_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index cbcd4f6..fc51010 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -350,7 +350,7 @@ int hov_ti_reverse(
 #ifdef _HOV_
   const int p = nrows;
   const int pk1 = p * k1;
-  const int q = 1;
+  const int q = p;
 #elif _HOS_OV_
   const int p = nrows;
   const int pk1 = p * k1;
-- 
2.43.0


From 7765a3175de5f623e2c35d58bd657e9df26a539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:45 +0000
Subject: [PATCH 30/55] fix: higher-order reverse of ceil and floor writes
 through the right adjoints

---
 ADOL-C/src/ho_rev.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index fc51010..1416c4b 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1833,6 +1833,7 @@ int hov_ti_reverse(
       coval = (coval != ceil(*rpp_T[arg]));
 
       ASSIGN_A(Ares, rpp_A[res])
+      ASSIGN_A(Aarg, rpp_A[arg])
 
       for (int l = 0; l < p; l++)
         if (0 == ARES) {
@@ -1868,7 +1869,7 @@ int hov_ti_reverse(
           HOV_INC(Aarg, k1)
           HOV_INC(Ares, k1)
         } else {
-          ARES = 0.0;
+          ARES_INC = 0.0;
           AARG_INC = 5.0;
           for (int i = 0; i < k; i++) {
             if ((coval != 0.0) && (ARES != 0.0))
-- 
2.43.0


From 166e6709654c8c60e3ed9f250dd7cf071747a518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:45 +0000
Subject: [PATCH 31/55] fix: higher-order reverse of conditional assignments
 reports a changed branch

---
 ADOL-C/src/ho_rev.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 1416c4b..8b1e5c5 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1938,7 +1938,7 @@ int hov_ti_reverse(
                 AARG1 = 5.0;
                 AARG2_INC = 5.0;
               } else {
-                if (coval <= 0.0)
+                if (coval > 0.0)
                   MINDEC(ret_c, 2);
                 MAXDEC(AARG2, ARES);
                 AARG2_INC_O;
@@ -1960,7 +1960,7 @@ int hov_ti_reverse(
                 MINDEC(ret_c, 0);
                 AARG1 = 5.0;
                 AARG2 = 5.0;
-              } else if (coval <= 0.0)
+              } else if (coval > 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2017,7 +2017,7 @@ int hov_ti_reverse(
               HOV_INC(Ares, k1)
               HOV_INC(Aarg2, k1)
             } else {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
               MAXDEC(AARG2, ARES);
               AARG2_INC_O;
@@ -2033,7 +2033,7 @@ int hov_ti_reverse(
         else
           for (int l = 0; l < p; l++) {
             if (ARES != 0.0) {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2628,7 +2628,7 @@ int hov_ti_reverse(
                 AARG1 = 5.0;
                 AARG2_INC = 5.0;
               } else {
-                if (coval <= 0.0)
+                if (coval > 0.0)
                   MINDEC(ret_c, 2);
                 MAXDEC(AARG2, ARES);
                 AARG2_INC_O;
@@ -2650,7 +2650,7 @@ int hov_ti_reverse(
                 MINDEC(ret_c, 0);
                 AARG1 = 5.0;
                 AARG2 = 5.0;
-              } else if (coval <= 0.0)
+              } else if (coval > 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2711,7 +2711,7 @@ int hov_ti_reverse(
               HOV_INC(Ares, k1)
               HOV_INC(Aarg2, k1)
             } else {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
               MAXDEC(AARG2, ARES);
               AARG2_INC_O;
@@ -2727,7 +2727,7 @@ int hov_ti_reverse(
         else
           for (int l = 0; l < p; l++) {
             if (ARES != 0.0) {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
-- 
2.43.0


From a7f0dd91ad1f3fd89490794743dfa9274412a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:45 +0000
Subject: [PATCH 32/55] fix: higher-order reverse of vector copy, dot product
 and axpy: Taylor order, every direction, adjoint of the result cleared

---
 ADOL-C/src/ho_rev.cpp | 69 ++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 8b1e5c5..6ee48a3 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2479,9 +2479,12 @@ int hov_ti_reverse(
             }
           }
 
-        GET_TAYL(res + qq, k, p)
       }
 
+      /* the last Taylor coefficients written are read first */
+      for (locint qq = size; qq-- > 0;)
+        GET_TAYL(res + qq, k, p)
+
       break;
 
     case vec_dot:
@@ -2504,7 +2507,7 @@ int hov_ti_reverse(
             HOS_OV_INC(Targ2, k)
           } else {
             comp = (ARES > 2.0) ? ARES : 2.0;
-            ARES_INC = comp;
+            ARES_INC_O;
             MAXDEC(AARG1, comp);
             MAXDEC(AARG2, comp);
             AARG1_INC_O;
@@ -2518,10 +2521,11 @@ int hov_ti_reverse(
             HOV_INC(Aarg2, k)
             HOS_OV_INC(Targ1, k)
             HOS_OV_INC(Targ2, k)
-            HOS_OV_INC(Tres, k)
           }
         }
       }
+      ASSIGN_A(Ares, rpp_A[res])
+      FOR_0_LE_l_LT_pk1 ARES_INC = 0.0;
       GET_TAYL(res, k, p)
       break;
 
@@ -2538,36 +2542,41 @@ int hov_ti_reverse(
         ASSIGN_A(Aarg1, rpp_A[arg1 + qq])
         Targ = rpp_T[arg];
         Targ1 = rpp_T[arg1 + qq];
-        if (0 == ARES) {
-          HOV_INC(Aarg, k1)
-          HOV_INC(Aarg1, k1)
-          HOV_INC(Aarg2, k1)
-          HOV_INC(Ares, k1)
-          HOS_OV_INC(Targ, k)
-          HOS_OV_INC(Targ1, k)
-        } else {
-          comp = (ARES > 2.0) ? ARES : 2.0;
-          MAXDEC(AARG2, ARES);
-          ARES_INC = 0.0;
-          MAXDEC(AARG, comp);
-          MAXDEC(AARG1, comp);
-          AARG_INC_O;
-          AARG1_INC_O;
-          AARG2_INC_O;
-          copyAndZeroset(k, Ares, rp_Atemp);
-          inconv(k, rp_Atemp, Targ1, Aarg);
-          inconv(k, rp_Atemp, Targ, Aarg1);
-          for (int i = 0; i < k; i++)
-            AARG2_INC += rp_Atemp[i];
+        for (int l = 0; l < p; l++) {
+          if (0 == ARES) {
+            HOV_INC(Aarg, k1)
+            HOV_INC(Aarg1, k1)
+            HOV_INC(Aarg2, k1)
+            HOV_INC(Ares, k1)
+            HOS_OV_INC(Targ, k)
+            HOS_OV_INC(Targ1, k)
+          } else {
+            comp = (ARES > 2.0) ? ARES : 2.0;
+            MAXDEC(AARG2, ARES);
+            ARES_INC = 0.0;
+            MAXDEC(AARG, comp);
+            MAXDEC(AARG1, comp);
+            AARG_INC_O;
+            AARG1_INC_O;
+            AARG2_INC_O;
+            copyAndZeroset(k, Ares, rp_Atemp);
+            inconv(k, rp_Atemp, Targ1, Aarg);
+            inconv(k, rp_Atemp, Targ, Aarg1);
+            for (int i = 0; i < k; i++)
+              AARG2_INC += rp_Atemp[i];
 
-          HOV_INC(Ares, k)
-          HOV_INC(Aarg, k)
-          HOV_INC(Aarg1, k)
-          HOS_OV_INC(Targ, k)
-          HOS_OV_INC(Targ1, k)
+            HOV_INC(Ares, k)
+            HOV_INC(Aarg, k)
+            HOV_INC(Aarg1, k)
+            HOS_OV_INC(Targ, k)
+            HOS_OV_INC(Targ1, k)
+          }
         }
-        GET_TAYL(res + qq, k, p)
       }
+
+      /* the last Taylor coefficients written are read first */
+      for (locint qq = size; qq-- > 0;)
+        GET_TAYL(res + qq, k, p)
       break;
 
     case ref_cond_assign: /* cond_assign */
-- 
2.43.0


From f470bebffb92384e48d6c27576bf39598705a2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:45 +0000
Subject: [PATCH 33/55] fix: higher-order reverse of an element assigned to
 itself keeps its adjoint

---
 ADOL-C/src/ho_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 6ee48a3..2cab9f2 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2286,7 +2286,7 @@ int hov_ti_reverse(
       ASSIGN_A(Aarg, rpp_A[arg])
       ASSIGN_A(Ares, rpp_A[res])
 
-      for (int l = 0; l < p; l++)
+      for (int l = 0; l < p && arg != res; l++)
         if (0 == ARES) {
           HOV_INC(Aarg, k1)
           HOV_INC(Ares, k1)
-- 
2.43.0


From 12c963e9a12e0be07eb9d80628d2c74709938c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:36 +0000
Subject: [PATCH 34/55] fix: asin, acos, acosh, atanh: test the argument, not
 the result stored over it

---
 ADOL-C/src/uni5_for.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 315724b..b359509 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -2719,7 +2719,8 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
-      dp_T0[res] = asin(dp_T0[arg1]);
+      coval = dp_T0[arg1]; /* res may be arg1 */
+      dp_T0[res] = asin(coval);
 #endif /* !_NTIGHT_ */
 
 #if defined(_INDO_)
@@ -2746,7 +2747,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (coval == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_nan();
@@ -2765,7 +2766,7 @@ int hov_forward(
           TRES = r0;
           VEC_INC(Tres, k)
         }
-      else if (dp_T0[arg1] == -1.0)
+      else if (coval == -1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_inf();
@@ -2819,7 +2820,8 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
-      dp_T0[res] = acos(dp_T0[arg1]);
+      coval = dp_T0[arg1]; /* res may be arg1 */
+      dp_T0[res] = acos(coval);
 #endif /* !_NTIGHT_ */
 
 #if defined(_INDO_)
@@ -2846,7 +2848,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (coval == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_nan();
@@ -2865,7 +2867,7 @@ int hov_forward(
           TRES = r0;
           VEC_INC(Tres, k)
         }
-      else if (dp_T0[arg1] == -1.0)
+      else if (coval == -1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = -tape.make_inf();
@@ -2980,7 +2982,8 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
-      dp_T0[res] = acosh(dp_T0[arg1]);
+      coval = dp_T0[arg1]; /* res may be arg1 */
+      dp_T0[res] = acosh(coval);
 #endif /* !_NTIGHT_ */
 
 #if defined(_INDO_)
@@ -3007,7 +3010,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (coval == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_inf();
@@ -3065,7 +3068,8 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
-      dp_T0[res] = atanh(dp_T0[arg1]);
+      coval = dp_T0[arg1]; /* res may be arg1 */
+      dp_T0[res] = atanh(coval);
 #endif /* !_NTIGHT_ */
 
 #if defined(_INDO_)
@@ -3092,7 +3096,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (coval == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_nan();
@@ -3114,7 +3118,7 @@ int hov_forward(
             *Tres++ = tape.make_nan();
 #endif /* _HIGHER_ORDER_ */
         }
-      else if (dp_T0[arg1] == -1.0)
+      else if (coval == -1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_inf();
-- 
2.43.0


From 61072cceca2ba540b6465644d484353529c997e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:35 +0000
Subject: [PATCH 35/55] fix: fmin of two lvalues: the value of the first
 argument, not its location

---
 ADOL-C/src/adouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index 87c1c48..825a151 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -4704,7 +4704,7 @@ adouble fmin(const adouble &a, const adouble &b) {
   adouble ret_adouble;
 
   const double coval = b.value() < a.value() ? 0.0 : 1.0;
-  const double tmp = b.value() < a.value() ? b.value() : to_double(a.loc());
+  const double tmp = b.value() < a.value() ? b.value() : a.value();
 
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
 
-- 
2.43.0


From eebf388f4c66b5e16b058101628f59ab63e34b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:35 +0000
Subject: [PATCH 36/55] fix: export operator==(double, adouble) and
 operator<=(double, adouble)

---
 ADOL-C/src/adouble.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index 825a151..810f25c 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -1332,7 +1332,7 @@ bool operator==(const adouble &a, const double coval) {
   }
 }
 
-inline bool operator==(const double coval, const adouble &a) {
+bool operator==(const double coval, const adouble &a) {
   if (coval != 0.0)
     return (-coval + a == 0);
   else
@@ -1359,7 +1359,7 @@ bool operator<=(const adouble &a, const double coval) {
   }
 }
 
-inline bool operator<=(const double coval, const adouble &a) {
+bool operator<=(const double coval, const adouble &a) {
   if (coval != 0.0)
     return (-coval + a >= 0);
   else
-- 
2.43.0


From 5ee67169375935c85320cfa70ced0413c72e403e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:29 +0000
Subject: [PATCH 37/55] fix: atan2 on the negative real axis: pi, as for
 doubles

---
 ADOL-C/include/adolc/adtb_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/adtb_types.h b/ADOL-C/include/adolc/adtb_types.h
index 6459cbc..a591690 100644
--- a/ADOL-C/include/adolc/adtb_types.h
+++ b/ADOL-C/include/adolc/adtb_types.h
@@ -1094,7 +1094,7 @@ ADOLC_API inline adouble pow(const adouble &a, const adouble &b) {
 ADOLC_API inline adouble atan2(const adouble &a, const adouble &b) {
   adouble a1, a2, ret, sy;
   const double pihalf = ADOLC_MATH_NSP::asin(1.0);
-  condassign(sy, a, adouble{1.0}, adouble{-1.0});
+  condeqassign(sy, a, adouble{1.0}, adouble{-1.0});
   condassign(a1, b, atan(a / b), atan(a / b) + sy * 2 * pihalf);
   condassign(a2, fabs(a), sy * pihalf - atan(b / a), adouble{0.0});
   condassign(ret, fabs(b) - fabs(a), a1, a2);
-- 
2.43.0


From 7e2441dc4d6f58e68a49642410fa7c64da2ae52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:40 +0000
Subject: [PATCH 38/55] fix: traceless atan2: derivative for a zero second
 argument

---
 ADOL-C/include/adolc/adtl.h     | 11 ++++-------
 ADOL-C/include/adolc/adtl_hov.h | 10 +++-------
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl.h b/ADOL-C/include/adolc/adtl.h
index 45ac5ed..f27fda6 100644
--- a/ADOL-C/include/adolc/adtl.h
+++ b/ADOL-C/include/adolc/adtl.h
@@ -570,14 +570,11 @@ ADOLC_API inline adouble atan(const adouble &a) {
 ADOLC_API inline adouble atan2(const adouble &a, const adouble &b) {
   adouble tmp;
   tmp.PRIMAL_VALUE = ADOLC_MATH_NSP::atan2(a.PRIMAL_VALUE, b.PRIMAL_VALUE);
-  double tmp2 = a.PRIMAL_VALUE * a.PRIMAL_VALUE;
-  double tmp3 = b.PRIMAL_VALUE * b.PRIMAL_VALUE;
-  double tmp4 = tmp3 / (tmp2 + tmp3);
-  if (tmp4 != 0)
-    FOR_I_EQ_1_LTEQ_NUMDIR
+  double tmp2 =
+      a.PRIMAL_VALUE * a.PRIMAL_VALUE + b.PRIMAL_VALUE * b.PRIMAL_VALUE;
+  FOR_I_EQ_1_LTEQ_NUMDIR
   tmp.ADVAL_I =
-      (a.ADVAL_I * b.PRIMAL_VALUE - a.PRIMAL_VALUE * b.ADVAL_I) / tmp3 * tmp4;
-  else FOR_I_EQ_1_LTEQ_NUMDIR tmp.ADVAL_I = 0.0;
+      (a.ADVAL_I * b.PRIMAL_VALUE - a.PRIMAL_VALUE * b.ADVAL_I) / tmp2;
   return tmp;
 }
 
diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 6f8757e..5ec158f 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1167,13 +1167,9 @@ inline adouble atan2(const adouble &a, const adouble &b) {
   if (do_val())
     tmp.val = ADOLC_MATH_NSP::atan2(a.val, b.val);
   if (likely(adouble::_do_adval() && adouble::_do_val())) {
-    double tmp2 = a.val * a.val;
-    double tmp3 = b.val * b.val;
-    double tmp4 = tmp3 / (tmp2 + tmp3);
-    if (tmp4 != 0)
-      FOR_I_EQ_0_LT_NUMDIR
-    tmp.ADVAL_I = (a.ADVAL_I * b.val - a.val * b.ADVAL_I) / tmp3 * tmp4;
-    else FOR_I_EQ_0_LT_NUMDIR tmp.ADVAL_I = 0.0;
+    double tmp2 = a.val * a.val + b.val * b.val;
+    FOR_I_EQ_0_LT_NUMDIR
+    tmp.ADVAL_I = (a.ADVAL_I * b.val - a.val * b.ADVAL_I) / tmp2;
   }
   if (do_hoval()) // ADTL_HOV
   {
-- 
2.43.0


From d1d1c8dd1362216b02de26ce2453e6b683d23fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:40 +0000
Subject: [PATCH 39/55] fix: count the switching variables in
 fos_pl_sig_forward and fov_pl_sig_forward

---
 ADOL-C/src/uni5_for.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index b359509..a69dae2 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3959,7 +3959,7 @@ int hov_forward(
 #if !defined(_NTIGHT_)
       dp_T0[res] = fabs(dp_T0[arg]);
 #endif /* !_NTIGHT_ */
-#if defined(_ABS_NORM_) || defined(_ABS_NORN_SIG_)
+#if defined(_ABS_NORM_) || defined(_ABS_NORM_SIG_)
       ++switchnum;
 #endif
       break;
-- 
2.43.0


From 31555f61e861a1ee17eecfd2295fdaee5c9cbeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:40 +0000
Subject: [PATCH 40/55] fix: fos_pl_sig_reverse: use the adjoint of |z| before
 clearing it

---
 ADOL-C/src/fo_rev.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 6806318..ef12648 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1657,8 +1657,11 @@ int int_reverse_safe(
       switchnum--;
 
 #elif defined(_ABS_NORM_SIG_)
-      ARES_INC = 0.0;
-      AARG_INC += siggrad[switchnum] * (*Ares);
+      {
+        const double aTmp = *Ares;
+        ARES_INC = 0.0;
+        AARG_INC += siggrad[switchnum] * aTmp;
+      }
       switchnum--;
 #else
 #if !defined(_NTIGHT_)
-- 
2.43.0


From e92f2e0a407500be58feb7653ca124d649270ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:25 +0000
Subject: [PATCH 41/55] fix: vec_jac: return the code of the reverse sweep when
 the forward sweep is not repeated

---
 ADOL-C/src/drivers/drivers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index af6178e..ddbdd5f 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -54,7 +54,7 @@ int gradient(short tag, int n, const double *argument, double *result) {
 /* vec_jac(tag, m, n, repeat, x[n], u[m], v[n])                             */
 int vec_jac(short tag, int m, int n, int repeat, const double *argument,
             const double *lagrange, double *row) {
-  int rc = -1;
+  int rc = 3;
   double *y = NULL;
 
   if (!repeat) {
-- 
2.43.0


From 0c6a8c447ff03c19e0631bd696c3dffa3c15273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:25 +0000
Subject: [PATCH 42/55] fix: large_jacobian: cover every column exactly once
 and return the smallest code

---
 ADOL-C/src/drivers/drivers.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index ddbdd5f..22c39a0 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -104,7 +104,7 @@ int jacobian(short tag, int depen, int indep, const double *argument,
 
 int large_jacobian(short tag, int depen, int indep, int runns, double *argument,
                    double *result, double **jacobian) {
-  int rc, dirs, i;
+  int rc = 3, dirs, i;
   double **I;
 
   I = myallocI2(indep);
@@ -115,13 +115,15 @@ int large_jacobian(short tag, int depen, int indep, int runns, double *argument,
   dirs = indep / runns;
   if (indep % runns)
     ++dirs;
+  /* runs that are needed for blocks of dirs columns */
+  runns = (indep + dirs - 1) / dirs;
   for (i = 0; i < runns - 1; ++i) {
-    rc = fov_offset_forward(tag, depen, indep, dirs, i * dirs, argument, I,
-                            result, jacobian);
+    MINDEC(rc, fov_offset_forward(tag, depen, indep, dirs, i * dirs, argument,
+                                  I, result, jacobian));
   }
   dirs = indep - (runns - 1) * dirs;
-  rc = fov_offset_forward(tag, depen, indep, dirs, indep - dirs, argument, I,
-                          result, jacobian);
+  MINDEC(rc, fov_offset_forward(tag, depen, indep, dirs, indep - dirs, argument,
+                                I, result, jacobian));
   myfreeI2(indep, I);
   return rc;
 }
-- 
2.43.0


From 1dbfbd9278e5fbfeeb4c9eda6414b6e9c86d6870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:25 +0000
Subject: [PATCH 43/55] fix: directional_active_gradient: no more directions
 than independents

---
 ADOL-C/src/drivers/psdrivers.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/drivers/psdrivers.cpp b/ADOL-C/src/drivers/psdrivers.cpp
index 454f550..fe4525d 100644
--- a/ADOL-C/src/drivers/psdrivers.cpp
+++ b/ADOL-C/src/drivers/psdrivers.cpp
@@ -127,7 +127,7 @@ int directional_active_gradient(short tag,       /* trace identifier */
   bool done = 0;
   int j = 0;
 
-  while ((k < 6) && (done == 0)) {
+  while ((k < 6) && (k <= n) && (done == 0)) {
     fov_pl_forward(tag, 1, n, k, x, E, &y, grad, z, gradu, sigma_g);
 
     size_t sum = 0;
@@ -144,7 +144,8 @@ int directional_active_gradient(short tag,       /* trace identifier */
     } else {
       if (j == max_dk)
         j++;
-      E[j][k] = 1;
+      if (k < n)
+        E[j][k] = 1;
       j++;
       k++;
     }
-- 
2.43.0


From 00364e5434ba4f9dd26ffa5d74475dd939ac1026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:37 +0000
Subject: [PATCH 44/55] fix: the reverse sweeps handle adolc_vec_axpy whose
 result is one of its operands

---
 ADOL-C/src/fo_rev.cpp | 24 +++++++++++++-----------
 ADOL-C/src/ho_rev.cpp | 13 ++++++++-----
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index ef12648..63e633e 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2426,33 +2426,35 @@ int int_reverse_safe(
       arg2 = tape.get_locint_r();
       arg1 = tape.get_locint_r();
       arg = tape.get_locint_r();
+#if !defined(_NTIGHT_)
+      /* the values were stored in ascending order */
+      for (locint qq = size; qq > 0; qq--)
+        rp_T[res + qq - 1] = tape.get_taylor();
+#endif /* !_NTIGHT_ */
       for (locint qq = 0; qq < size; qq++) {
         ASSIGN_A(Ares, ADJOINT_BUFFER[res])
         ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
         ASSIGN_A(Aarg2, ADJOINT_BUFFER[arg2])
         ASSIGN_A(Aarg1, ADJOINT_BUFFER[arg1])
         FOR_0_LE_l_LT_p {
+          /* the result may be one of the two vectors */
+          const auto aTmp = *Ares;
 #if defined(_INT_REV_)
-          AARG_INC |= *Ares;
-          AARG2_INC |= *Ares;
-          AARG1_INC |= *Ares;
           ARES_INC = 0;
+          AARG_INC |= aTmp;
+          AARG2_INC |= aTmp;
+          AARG1_INC |= aTmp;
 #else
-          AARG2_INC += *Ares;
-          AARG1_INC += (*Ares) * TARG;
-          AARG_INC += *Ares * TARG1;
           ARES_INC = 0.0;
+          AARG2_INC += aTmp;
+          AARG1_INC += aTmp * TARG;
+          AARG_INC += aTmp * TARG1;
 #endif
         }
         arg2++;
         arg1++;
         res++;
       }
-#if !defined(_NTIGHT_)
-      /* the values were stored in ascending order */
-      for (locint qq = size; qq > 0; qq--)
-        rp_T[--res] = tape.get_taylor();
-#endif /* !_NTIGHT_ */
       break;
 
     case ref_cond_assign: /* cond_assign */
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 2cab9f2..d4de168 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2535,6 +2535,11 @@ int hov_ti_reverse(
       arg2 = tape.get_locint_r();
       arg1 = tape.get_locint_r();
       arg = tape.get_locint_r();
+
+      /* the last Taylor coefficients written are read first */
+      for (locint qq = size; qq-- > 0;)
+        GET_TAYL(res + qq, k, p)
+
       for (locint qq = 0; qq < size; qq++) {
         ASSIGN_A(Ares, rpp_A[res + qq])
         ASSIGN_A(Aarg, rpp_A[arg])
@@ -2551,9 +2556,11 @@ int hov_ti_reverse(
             HOS_OV_INC(Targ, k)
             HOS_OV_INC(Targ1, k)
           } else {
+            const double level = ARES;
             comp = (ARES > 2.0) ? ARES : 2.0;
-            MAXDEC(AARG2, ARES);
+            /* the result may be one of the two vectors */
             ARES_INC = 0.0;
+            MAXDEC(AARG2, level);
             MAXDEC(AARG, comp);
             MAXDEC(AARG1, comp);
             AARG_INC_O;
@@ -2573,10 +2580,6 @@ int hov_ti_reverse(
           }
         }
       }
-
-      /* the last Taylor coefficients written are read first */
-      for (locint qq = size; qq-- > 0;)
-        GET_TAYL(res + qq, k, p)
       break;
 
     case ref_cond_assign: /* cond_assign */
-- 
2.43.0


From 03c6521a23af062e72ecfc6a4b41277e6ab0d4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:37 +0000
Subject: [PATCH 45/55] fix: hessian_ leaves the upper half of the matrix
 unchanged, as documented

---
 ADOL-C/src/drivers/driversf.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ADOL-C/src/drivers/driversf.cpp b/ADOL-C/src/drivers/driversf.cpp
index 6989dd9..9d92e4c 100644
--- a/ADOL-C/src/drivers/driversf.cpp
+++ b/ADOL-C/src/drivers/driversf.cpp
@@ -155,6 +155,7 @@ fint hessian_(fint *ftag, fint *fn, fdouble *fx,
   double **H = myalloc2(n, n);
   double *x = myalloc1(n);
   spread1(n, fx, x);
+  spread2(n, n, fh, H);
   rc = hessian(tag, n, x, H);
   pack2(n, n, H, fh);
   myfree2(H);
-- 
2.43.0


From 9eb2a8538c3371c38a29295b98c9260b4b9b1722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:37 +0000
Subject: [PATCH 46/55] fix: forodec_ passes the coefficients up to the
 previous degree on

---
 ADOL-C/src/drivers/odedriversf.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ADOL-C/src/drivers/odedriversf.cpp b/ADOL-C/src/drivers/odedriversf.cpp
index da26887..439ee58 100644
--- a/ADOL-C/src/drivers/odedriversf.cpp
+++ b/ADOL-C/src/drivers/odedriversf.cpp
@@ -39,11 +39,9 @@ fint forodec_(fint *ftag,    /* tape identifier */
   short tag = static_cast<short>(*ftag);
   int n = static_cast<int>(*fn), dol = static_cast<int>(*fdol),
       deg = static_cast<int>(*fdeg);
-  int i;
   double tau = *ftau;
   double **Y = myalloc2(n, deg + 1);
-  for (i = 0; i < n; i++)
-    *Y[i] = fy[i];
+  spread2(n, dol + 1, fy, Y);
   rc = forodec(tag, n, tau, dol, deg, Y);
   pack2(n, deg + 1, Y, fy);
   free((char *)*Y);
-- 
2.43.0


From 3c15b3fd6cd1f904dc0e7d58d0ca6bbe3a2ff129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:37 +0000
Subject: [PATCH 47/55] fix: accodec_ provides the deg + 1 coefficients that
 accodec uses

---
 ADOL-C/src/drivers/odedriversf.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/src/drivers/odedriversf.cpp b/ADOL-C/src/drivers/odedriversf.cpp
index 439ee58..2308d14 100644
--- a/ADOL-C/src/drivers/odedriversf.cpp
+++ b/ADOL-C/src/drivers/odedriversf.cpp
@@ -61,11 +61,11 @@ fint accodec_(fint *fn,      /* space dimension */
   int rc = 1;
   int n = static_cast<int>(*fn), deg = static_cast<int>(*fdeg);
   double tau = *ftau;
-  double ***A = myalloc3(n, n, deg);
-  double ***B = myalloc3(n, n, deg);
-  spread3(n, n, deg, fa, A);
+  double ***A = myalloc3(n, n, deg + 1);
+  double ***B = myalloc3(n, n, deg + 1);
+  spread3(n, n, deg + 1, fa, A);
   accodec(n, tau, deg, A, B, 0);
-  pack3(n, n, deg, B, fb);
+  pack3(n, n, deg + 1, B, fb);
   free((char *)**A);
   free((char *)*A);
   free((char *)A);
-- 
2.43.0


From 4af503331bd5b46c70384030d719d7fe8e95415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:38 +0000
Subject: [PATCH 48/55] fix: forodec_ and accodec_ release their arrays as they
 were allocated

---
 ADOL-C/src/drivers/odedriversf.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/src/drivers/odedriversf.cpp b/ADOL-C/src/drivers/odedriversf.cpp
index 2308d14..535b6b8 100644
--- a/ADOL-C/src/drivers/odedriversf.cpp
+++ b/ADOL-C/src/drivers/odedriversf.cpp
@@ -44,8 +44,7 @@ fint forodec_(fint *ftag,    /* tape identifier */
   spread2(n, dol + 1, fy, Y);
   rc = forodec(tag, n, tau, dol, deg, Y);
   pack2(n, deg + 1, Y, fy);
-  free((char *)*Y);
-  free((char *)Y);
+  myfree2(Y);
   return rc;
 }
 
@@ -66,12 +65,8 @@ fint accodec_(fint *fn,      /* space dimension */
   spread3(n, n, deg + 1, fa, A);
   accodec(n, tau, deg, A, B, 0);
   pack3(n, n, deg + 1, B, fb);
-  free((char *)**A);
-  free((char *)*A);
-  free((char *)A);
-  free((char *)**B);
-  free((char *)*B);
-  free((char *)B);
+  myfree3(A);
+  myfree3(B);
   return rc;
 }
 
-- 
2.43.0


From dc55ad85ddf4e79fb2e8990e9168c533b375e4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:05 +0000
Subject: [PATCH 49/55] fix: trace_on with buffer sizes starts the trace
 (initNewTape returns 0 on success)

---
 ADOL-C/src/tape_interface.cpp | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/ADOL-C/src/tape_interface.cpp b/ADOL-C/src/tape_interface.cpp
index e680731..bdb52ee 100644
--- a/ADOL-C/src/tape_interface.cpp
+++ b/ADOL-C/src/tape_interface.cpp
@@ -68,26 +68,23 @@ int trace_on(short tapeId, int keepTaylors, size_t obs, size_t lbs, size_t vbs,
   setCurrentTape(tapeId);
 
   int retval = tape.initNewTape();
-  if (retval) {
 #ifdef ADOLC_MEDIPACK_SUPPORT
-    tape.mediInitTape(tapeId);
+  tape.mediInitTape(tapeId);
 #endif
-    // reset the tape buffers
-    tape.freeTapeResources();
-    tape.tapestats(TapeInfos::OP_BUFFER_SIZE, obs);
-    tape.tapestats(TapeInfos::LOC_BUFFER_SIZE, lbs);
-    tape.tapestats(TapeInfos::VAL_BUFFER_SIZE, vbs);
-    tape.tapestats(TapeInfos::TAY_BUFFER_SIZE, tbs);
-    tape.keepTaylors(keepTaylors);
-    tape.tapestats(TapeInfos::NO_MIN_MAX, tape.nominmaxFlag());
-    tape.skipFileCleanup(skipFileCleanup);
-    if (keepTaylors != 0)
-      tape.deg_save(1);
-    tape.start_trace();
-    tape.take_stock(); /* record all existing adoubles on the tape */
-    return retval;
-  } else
-    return -1;
+  // reset the tape buffers
+  tape.freeTapeResources();
+  tape.tapestats(TapeInfos::OP_BUFFER_SIZE, obs);
+  tape.tapestats(TapeInfos::LOC_BUFFER_SIZE, lbs);
+  tape.tapestats(TapeInfos::VAL_BUFFER_SIZE, vbs);
+  tape.tapestats(TapeInfos::TAY_BUFFER_SIZE, tbs);
+  tape.keepTaylors(keepTaylors);
+  tape.tapestats(TapeInfos::NO_MIN_MAX, tape.nominmaxFlag());
+  tape.skipFileCleanup(skipFileCleanup);
+  if (keepTaylors != 0)
+    tape.deg_save(1);
+  tape.start_trace();
+  tape.take_stock(); /* record all existing adoubles on the tape */
+  return retval;
 }
 
 void trace_off(int flag) {
-- 
2.43.0


From 207aeaba9594da943d8123f6bdb9b5b4c9bc3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:05 +0000
Subject: [PATCH 50/55] fix: get_taylors stores the coefficients of a finished
 block one place lower

---
 ADOL-C/src/valuetape/tapeinfos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index 7324e78..5e9afee 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -144,7 +144,7 @@ void TapeInfos::get_taylors(double *taylorCoefficients, std::ptrdiff_t degree) {
   while (tayBuffer_.position() < static_cast<size_t>(degree)) {
     std::span<double> taySpan(tayBuffer_.begin(), tayBuffer_.current());
     for (auto tay = taySpan.rbegin(); tay != taySpan.rend(); tay++) {
-      *(T--) = *tay;
+      *(--T) = *tay;
     }
     degree -= tayBuffer_.position();
     get_tay_block_r();
-- 
2.43.0


From 39e4b244bc086522f1715544facd529d93308810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:05 +0000
Subject: [PATCH 51/55] fix: more Taylor coefficients than the buffer holds no
 longer overrun it

---
 ADOL-C/src/valuetape/tapeinfos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index 5e9afee..3b66fa1 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -83,7 +83,7 @@ void TapeInfos::freeTapeResources() {
 /****************************************************************************/
 void TapeInfos::write_taylor(double *taylorCoefficientPos, std::ptrdiff_t keep,
                              const char *tay_fileName) {
-  while (tayBuffer_.position() > tayBuffer_.capacity() - keep) {
+  while (static_cast<size_t>(keep) > tayBuffer_.remainingCapacity()) {
     for (auto i = tayBuffer_.position(); i < tayBuffer_.capacity(); ++i) {
       tayBuffer_[i] = *taylorCoefficientPos;
       ++taylorCoefficientPos;
@@ -120,7 +120,7 @@ void TapeInfos::write_taylors(double *taylorCoefficientPos, int keep,
 void TapeInfos::write_scaylors(const double *taylorCoefficientPos,
                                std::ptrdiff_t size, const char *tay_fileName) {
   size_t pos = 0;
-  while (tayBuffer_.position() > tayBuffer_.capacity() - size) {
+  while (static_cast<size_t>(size) > tayBuffer_.remainingCapacity()) {
     std::span<double> taySpan(tayBuffer_.current(),
                               tayBuffer_.begin() + tayBuffer_.capacity());
     for (double &tay : taySpan) {
-- 
2.43.0


From 1666b57c9b9887b5e0d9e306c2eebdc7b2ed2229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:05 +0000
Subject: [PATCH 52/55] fix: get_op_block_f counts the whole block as read

---
 ADOL-C/src/valuetape/tapeinfos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index 3b66fa1..0c52529 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -359,7 +359,7 @@ void TapeInfos::get_op_block_f() {
               remain * sizeof(unsigned char), 1, opBuffer_.file()) != 1)
       ADOLCError::fail(ADOLCError::ErrorType::EVAL_OP_TAPE_READ_FAILED,
                        CURRENT_LOCATION);
-  opBuffer_.numOnTape(opBuffer_.numOnTape() - remain);
+  opBuffer_.numOnTape(opBuffer_.numOnTape() - number);
   opBuffer_.position(0);
 }
 
-- 
2.43.0


From 7c4bdf467273599644d549f04c51943c0ae7bc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:05 +0000
Subject: [PATCH 53/55] fix: more parameters than the value buffer holds no
 longer overrun it

---
 ADOL-C/src/valuetape/valuetape.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index c9ea082..d0dfcac 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -335,8 +335,8 @@ void ValueTape::save_params() {
            tapestats(TapeInfos::NUM_PARAM) * sizeof(double));
 
   free_all_taping_params();
-  if (tapeInfos_.valBuffer_.position() <
-      tapeInfos_.valBuffer_.capacity() - tapestats(TapeInfos::NUM_PARAM))
+  if (tapestats(TapeInfos::NUM_PARAM) <
+      tapeInfos_.valBuffer_.remainingCapacity())
     put_vals_notWriteBlock(paramstore(), tapestats(TapeInfos::NUM_PARAM));
   else {
     size_t np = tapestats(TapeInfos::NUM_PARAM);
-- 
2.43.0


From 729fad3102c9ba48fa345b79729e7f46995c0baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:05 +0000
Subject: [PATCH 54/55] fix: discard_params_r reads back blocks of the size of
 the value buffer

---
 ADOL-C/src/valuetape/valuetape.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index d0dfcac..923e3e9 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -626,6 +626,8 @@ void ValueTape::end_sweep() {
 void ValueTape::discard_params_r(void) {
   constexpr size_t chunkSize = ADOLC_IO_CHUNK_SIZE / sizeof(double);
   size_t ip = tapestats(TapeInfos::NUM_PARAM);
+  const size_t number = tapestats(TapeInfos::VAL_BUFFER_SIZE);
+  const size_t chunks = number / chunkSize;
   size_t rsize = 0;
   size_t remain = 0;
   while (ip > 0) {
@@ -636,28 +638,26 @@ void ValueTape::discard_params_r(void) {
     if (ip > 0) {
       fseek(tapeInfos_.valBuffer_.file(),
             static_cast<long>(sizeof(double) *
-                              (tapeInfos_.valBuffer_.numOnTape() -
-                               TapeInfos::VAL_BUFFER_SIZE)),
+                              (tapeInfos_.valBuffer_.numOnTape() - number)),
             SEEK_SET);
 
-      for (size_t i = 0; i < to_size_t(TapeInfos::VAL_BUFFER_SIZE / chunkSize);
-           ++i)
+      for (size_t i = 0; i < chunks; ++i)
         if (fread(tapeInfos_.valBuffer_.begin() + i * chunkSize,
                   chunkSize * sizeof(double), 1,
                   tapeInfos_.valBuffer_.file()) != 1)
           ADOLCError::fail(ADOLCError::ErrorType::EVAL_VAL_TAPE_READ_FAILED,
                            CURRENT_LOCATION);
 
-      remain = TapeInfos::VAL_BUFFER_SIZE % chunkSize;
+      remain = number % chunkSize;
       if (remain != 0)
-        if (fread(tapeInfos_.valBuffer_.begin() + TapeInfos::VAL_BUFFER_SIZE,
+        if (fread(tapeInfos_.valBuffer_.begin() + chunks * chunkSize,
                   remain * sizeof(double), 1,
                   tapeInfos_.valBuffer_.file()) != 1)
           ADOLCError::fail(ADOLCError::ErrorType::EVAL_VAL_TAPE_READ_FAILED,
                            CURRENT_LOCATION);
 
       tapeInfos_.valBuffer_.numOnTape(tapeInfos_.valBuffer_.numOnTape() -
-                                      TapeInfos::VAL_BUFFER_SIZE);
+                                      number);
       tapeInfos_.valBuffer_.position(tapeInfos_.valBuffer_.capacity());
     }
   }
-- 
2.43.0


From b2dca915dc43bd9dc325a40a79e14e1a20f99773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:54 +0000
Subject: [PATCH 55/55] fix: adolc_vec_dot is declared as it is defined

---
 ADOL-C/include/adolc/adtb_types.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/include/adolc/adtb_types.h b/ADOL-C/include/adolc/adtb_types.h
index a591690..e08028c 100644
--- a/ADOL-C/include/adolc/adtb_types.h
+++ b/ADOL-C/include/adolc/adtb_types.h
@@ -1107,9 +1107,9 @@ ADOLC_API inline adouble atan2(const adouble &a, const adouble &b) {
 void ADOLC_API adolc_vec_copy(adouble *const dest, const adouble *const src,
                               size_t size);
 
-// computes canonical scalarproduct, src and dest must have size "size"
-void ADOLC_API adolc_vec_dot(adouble *const dest, const adouble *const src,
-                             size_t size);
+// computes canonical scalarproduct, vec_a and vec_b must have size "size"
+ADOLC_API adouble adolc_vec_dot(const adouble *const vec_a,
+                                const adouble *const vec_b, size_t size);
 
 // res = a*vec_a + vec_b, vec_a and vec_b must have same size "size"
 void ADOLC_API adolc_vec_axpy(adouble *const res, const adouble &a,
-- 
2.43.0

