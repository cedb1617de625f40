From 2f7f6e046f2f6caea27b062ee4a36e6db0835224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 01/89] fix: define operator== and operator<= (double, adouble)
 with external linkage

They were declared in adouble.h but defined inline in adouble.cpp, so no
definition was emitted and programs comparing a constant on the left with
== or <= failed to link.
---
 ADOL-C/src/adouble.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index cd5d856..92f68e1 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -1332,7 +1332,7 @@ bool operator==(const adouble &a, const double coval) {
   }
 }
 
-inline bool operator==(const double coval, const adouble &a) {
+bool operator==(const double coval, const adouble &a) {
   if (coval != 0.0)
     return (-coval + a == 0);
   else
@@ -1359,7 +1359,7 @@ bool operator<=(const adouble &a, const double coval) {
   }
 }
 
-inline bool operator<=(const double coval, const adouble &a) {
+bool operator<=(const double coval, const adouble &a) {
   if (coval != 0.0)
     return (-coval + a >= 0);
   else
-- 
2.43.0


From 459e758f75dd2151af4c09bf3c19637a50a1d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 02/89] fix: reverse sweeps accumulate the weight of a
 dependent instead of overwriting its adjoint

A variable may still be used, or be declared dependent again, after
'>>='; those contributions were lost.
---
 ADOL-C/src/fo_rev.cpp | 8 +++++++-
 ADOL-C/src/ho_rev.cpp | 6 ++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index e67ffc1..24c900d 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -739,7 +739,13 @@ int int_reverse_safe(
 
       // Nested reverse calls for ext_diff use the public fov_reverse layout
       // [q][m], so they must not transpose incoming adjoint access here.
-      FOR_0_LE_l_LT_p ARES_INC = LAGRANGE(l, indexd);
+      // The variable may still be used after it has been declared dependent.
+      FOR_0_LE_l_LT_p
+#if defined(_INT_REV_)
+          ARES_INC |= LAGRANGE(l, indexd);
+#else
+          ARES_INC += LAGRANGE(l, indexd);
+#endif
       indexd--;
       break;
 
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 079180b..dcc8495 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -638,11 +638,13 @@ int hov_ti_reverse(
         ARES_INC_O;
         dc = -1;
         for (int i = 0; i < k; i++) {
-          ARES_INC = LAGRANGE(l, indexd, i);
+          /* the variable may still be used after it was declared dependent */
+          ARES_INC += LAGRANGE(l, indexd, i);
           if (LAGRANGE(l, indexd, i) != 0.0)
             dc = i;
         }
-        AARG = (dc < 0) ? 0.0 : (dc > 0) ? 2.0 : 1.0;
+        if (dc >= 0)
+          MAXDEC(AARG, (dc > 0) ? 2.0 : 1.0);
         HOV_INC(Aarg, k1)
       }
       indexd--;
-- 
2.43.0


From 047d55e4260abb94600e45b7924f885872695e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 03/89] fix: reverse sweeps clear the adjoint of a location
 that becomes an independent

Otherwise the adjoint of the new independent leaks into whatever the
location held before '<<='.
---
 ADOL-C/src/fo_rev.cpp | 3 +++
 ADOL-C/src/ho_rev.cpp | 9 ++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 24c900d..ffeae4a 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -724,6 +724,9 @@ int int_reverse_safe(
         FOR_0_LE_l_LT_p RESULTS(l, indexi) = ARES_INC;
       }
 #endif
+      // Whatever the location held before does not depend on later uses.
+      ASSIGN_A(Ares, ADJOINT_BUFFER[res])
+      FOR_0_LE_l_LT_p ARES_INC = 0;
 #if !defined(_NTIGHT_)
       rp_T[res] = tape.get_taylor();
 #endif /* !_NTIGHT_ */
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index dcc8495..141b7a0 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -617,9 +617,12 @@ int hov_ti_reverse(
         if (nonzero) /* ??? question: why here? */
           nonzero[l][indexi] = static_cast<short>(ARES);
 #endif /* _HOV_ */
-        ARES_INC_O;
-        for (int i = 0; i < k; i++)
-          RESULTS(l, indexi, i) = ARES_INC;
+        /* whatever the location held before does not depend on later uses */
+        ARES_INC = 0.0;
+        for (int i = 0; i < k; i++) {
+          RESULTS(l, indexi, i) = ARES;
+          ARES_INC = 0.0;
+        }
       }
 
       GET_TAYL(res, k, p)
-- 
2.43.0


From 4ab50844b49a6592e8bd979e181c0bc68e550e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 04/89] fix: fmin of two named adoubles returns the value of
 the first, not its location

The recorded operation was right; the value seen while recording (and
everything computed from it during recording, e.g. branches) was not.
---
 ADOL-C/src/adouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index 92f68e1..210138f 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -4704,7 +4704,7 @@ adouble fmin(const adouble &a, const adouble &b) {
   adouble ret_adouble;
 
   const double coval = b.value() < a.value() ? 0.0 : 1.0;
-  const double tmp = b.value() < a.value() ? b.value() : to_double(a.loc());
+  const double tmp = b.value() < a.value() ? b.value() : a.value();
 
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
 
-- 
2.43.0


From 6b513b61179ff952a05b562098f5f36016420a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 05/89] fix: hess_mat and hessian2 skip the reverse sweep after
 a branch switch

hov_wk_forward returns before its Taylor stack is complete in that case;
the reverse sweep then read whatever was left there.
---
 ADOL-C/src/drivers/drivers.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index af6178e..ca42270 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -177,11 +177,13 @@ int hess_mat(short tag, int n, int q, const double *argument,
   Upp[0][1] = 0;
 
   rc = hov_wk_forward(tag, 1, n, 1, 2, q, argument, Xppp, &y, Yppp);
-  MINDEC(rc, hos_ov_reverse(tag, 1, n, 1, q, Upp, Zppp));
+  if (rc >= 0) {
+    MINDEC(rc, hos_ov_reverse(tag, 1, n, 1, q, Upp, Zppp));
 
-  for (i = 0; i < q; ++i)
-    for (j = 0; j < n; ++j)
-      result[j][i] = Zppp[i][j][1];
+    for (i = 0; i < q; ++i)
+      for (j = 0; j < n; ++j)
+        result[j][i] = Zppp[i][j][1];
+  }
 
   myfree2(Upp);
   myfree3(Zppp);
@@ -245,11 +247,13 @@ int hessian2(short tag, int n, double *argument, double **hess) {
   Upp[0][1] = 0;
 
   rc = hov_wk_forward(tag, 1, n, 1, 2, n, argument, Xppp, y, Yppp);
-  MINDEC(rc, hos_ov_reverse(tag, 1, n, 1, n, Upp, Zppp));
+  if (rc >= 0) {
+    MINDEC(rc, hos_ov_reverse(tag, 1, n, 1, n, Upp, Zppp));
 
-  for (i = 0; i < n; i++)
-    for (j = 0; j <= i; j++)
-      hess[i][j] = Zppp[i][j][1];
+    for (i = 0; i < n; i++)
+      for (j = 0; j <= i; j++)
+        hess[i][j] = Zppp[i][j][1];
+  }
 
   myfree2(Upp);
   myfree3(Zppp);
-- 
2.43.0


From 39b1da8da452d941873b213d6375ba2c85e71fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 06/89] fix: refuse a reverse sweep after a keeping forward
 sweep that was not completed

A forward sweep that ends with a branch switch or an error leaves an
incomplete Taylor stack, which the next reverse sweep accepted.
---
 ADOL-C/src/valuetape/valuetape.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index c9ea082..2286d74 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -195,6 +195,9 @@ void ValueTape::taylor_begin(size_t bufferSize, int degreeSave) {
   }
 
   deg_save(degreeSave);
+  // nothing to reverse through until taylor_close()
+  tay_numInds(0);
+  tay_numDeps(0);
   if (degreeSave >= 0)
     keepTaylors(1);
   tapeInfos_.tayBuffer_.position(0);
-- 
2.43.0


From 72bbcc770ae61cd7d733f3e58870f993d4977fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 07/89] fix: first order reverse sweeps require Taylor
 coefficients kept with keep=1

With keep>1 the Taylor stack holds several numbers per intermediate; the
first order reverse sweeps read it as one number each and returned
garbage.
---
 ADOL-C/src/fo_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index ffeae4a..e92e8ed 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -531,7 +531,7 @@ int int_reverse_safe(
 #if !defined(_NTIGHT_)
   tape.taylor_back();
 
-  if (tape.deg_save() < 0)
+  if (tape.deg_save() != 0)
     ADOLCError::fail(ADOLCError::ErrorType::REVERSE_NO_FOWARD, CURRENT_LOCATION,
                      ADOLCError::FailInfo{.info3 = 0, .info4 = 1});
 
-- 
2.43.0


From b488c04f632f02fca192c1b74a0f20ca0c2bd70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 08/89] fix: higher order reverse sweeps require matching
 number of kept directions

hov_wk_forward keeps the coefficients of all directions; hos_reverse and
hov_reverse (one direction) or hos_ov_reverse with another number of
directions accepted them and read them in the wrong layout.
---
 ADOL-C/include/adolc/valuetape/tapeinfos.h | 2 ++
 ADOL-C/include/adolc/valuetape/valuetape.h | 5 ++++-
 ADOL-C/src/ho_rev.cpp                      | 8 +++++++-
 ADOL-C/src/uni5_for.cpp                    | 2 +-
 ADOL-C/src/valuetape/tapeinfos.cpp         | 4 +++-
 ADOL-C/src/valuetape/valuetape.cpp         | 3 ++-
 6 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/ADOL-C/include/adolc/valuetape/tapeinfos.h b/ADOL-C/include/adolc/valuetape/tapeinfos.h
index 64ce268..344a58e 100644
--- a/ADOL-C/include/adolc/valuetape/tapeinfos.h
+++ b/ADOL-C/include/adolc/valuetape/tapeinfos.h
@@ -72,6 +72,8 @@ struct TapeInfos {
   size_t tay_numInds{0};
   // # of dependents for the taylor stack
   size_t tay_numDeps{0};
+  // # of directions whose coefficients are on the taylor stack
+  int tay_numDirs{1};
 
   enum WORKMODES workMode { NO_MODE };
 
diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index d3f45f4..adb2ea6 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -259,6 +259,9 @@ public:
   void tay_numInds(size_t val) { tapeInfos_.tay_numInds = val; }
   size_t tay_numInds() const { return tapeInfos_.tay_numInds; }
 
+  void tay_numDirs(int val) { tapeInfos_.tay_numDirs = val; }
+  int tay_numDirs() const { return tapeInfos_.tay_numDirs; }
+
   void tay_numDeps(size_t val) { tapeInfos_.tay_numDeps = val; }
   size_t tay_numDeps() const { return tapeInfos_.tay_numDeps; }
 
@@ -510,7 +513,7 @@ public:
   /* tries to read a local config file containing, e.g., buffer sizes */
   std::array<std::string, 4> readConfigFile();
   // ------------------------ set up statics for writing taylor data
-  void taylor_begin(size_t bufferSize, int degreeSave);
+  void taylor_begin(size_t bufferSize, int degreeSave, int numDirs = 1);
 
   // close taylor file if necessary and refill buffer if possible
   void finish_tay_file();
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 141b7a0..ba24ea3 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -458,7 +458,13 @@ int hov_ti_reverse(
     ADOLCError::fail(ADOLCError::ErrorType::REVERSE_NO_FOWARD, CURRENT_LOCATION,
                      ADOLCError::FailInfo{.info3 = degre, .info4 = degre + 1});
 
-  if ((tape.tay_numDeps() != to_size_t(depen)) ||
+#ifdef _HOS_OV_
+  const int numDirs = p;
+#else
+  const int numDirs = 1;
+#endif
+  if ((degre > 0 && tape.tay_numDirs() != numDirs) ||
+      (tape.tay_numDeps() != to_size_t(depen)) ||
       (tape.tay_numInds() != to_size_t(indep)))
     ADOLCError::fail(ADOLCError::ErrorType::REVERSE_TAYLOR_COUNTS_MISMATCH,
                      CURRENT_LOCATION, ADOLCError::FailInfo{.info1 = tnum});
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index d5b5313..5186f6e 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -1248,7 +1248,7 @@ int hov_forward(
 #if defined(_KEEP_)
   if (keep) {
     const size_t taylbuf = tape.tapestats(TapeInfos::TAY_BUFFER_SIZE);
-    tape.taylor_begin(taylbuf, keep - 1);
+    tape.taylor_begin(taylbuf, keep - 1, p);
   }
 #endif
 #endif
diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index 7324e78..869b21b 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -22,7 +22,8 @@ TapeInfos::TapeInfos(TapeInfos &&other) noexcept
       nextBufferNumber(other.nextBufferNumber),
       lastTayBlockInCore(other.lastTayBlockInCore), deg_save(other.deg_save),
       tay_numInds(other.tay_numInds), tay_numDeps(other.tay_numDeps),
-      workMode(other.workMode), ext_diff_fct_index(other.ext_diff_fct_index),
+      tay_numDirs(other.tay_numDirs), workMode(other.workMode),
+      ext_diff_fct_index(other.ext_diff_fct_index),
       nestedReverseEval(other.nestedReverseEval),
       numSwitches(other.numSwitches), signature(other.signature) {
   other.signature = nullptr;
@@ -52,6 +53,7 @@ TapeInfos &TapeInfos::operator=(TapeInfos &&other) noexcept {
     deg_save = other.deg_save;
     tay_numInds = other.tay_numInds;
     tay_numDeps = other.tay_numDeps;
+    tay_numDirs = other.tay_numDirs;
 
     workMode = other.workMode;
     ext_diff_fct_index = other.ext_diff_fct_index;
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 2286d74..d30ce26 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -175,7 +175,7 @@ size_t ValueTape::keep_stock() {
 /****************************************************************************/
 /* Set up statics for writing taylor data                                   */
 /****************************************************************************/
-void ValueTape::taylor_begin(size_t bufferSize, int degreeSave) {
+void ValueTape::taylor_begin(size_t bufferSize, int degreeSave, int numDirs) {
   using ADOLCError::fail;
   using ADOLCError::FailInfo;
   using ADOLCError::ErrorType::TAPING_TBUFFER_ALLOCATION_FAILED;
@@ -195,6 +195,7 @@ void ValueTape::taylor_begin(size_t bufferSize, int degreeSave) {
   }
 
   deg_save(degreeSave);
+  tay_numDirs(numDirs);
   // nothing to reverse through until taylor_close()
   tay_numInds(0);
   tay_numDeps(0);
-- 
2.43.0


From 5bd5b8368a149bc208e358744fda509c5bbafe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 09/89] fix: vector reverse sweep moves every component of a
 subscripted element's adjoint

Only the first component of the result's adjoint was added (once per
direction) to the element that was read.
---
 ADOL-C/src/fo_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index e92e8ed..81fe245 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2036,7 +2036,7 @@ int int_reverse_safe(
         ARES_INC = 0;
 #else
         AARG1_INC += *Ares;
-        *Ares = 0.0;
+        ARES_INC = 0.0;
 #endif
       }
       rp_T[res] = tape.get_taylor();
-- 
2.43.0


From 24d5ea36373100324c72b52f09059d89f86c95d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 10/89] fix: reverse sweeps clear the adjoint of a vector
 element that becomes an independent

---
 ADOL-C/src/fo_rev.cpp | 4 ++++
 ADOL-C/src/ho_rev.cpp | 9 ++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 81fe245..c737339 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2202,6 +2202,10 @@ int int_reverse_safe(
       FOR_0_LE_l_LT_p RESULTS(l, indexi) = ARES_INC;
 #endif
 
+      // Whatever the element held before does not depend on later uses.
+      ASSIGN_A(Ares, ADJOINT_BUFFER[res])
+      FOR_0_LE_l_LT_p ARES_INC = 0;
+
       rp_T[res] = tape.get_taylor();
 #else
       ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_VE_REF, CURRENT_LOCATION);
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index ba24ea3..dcc3a5f 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2313,9 +2313,12 @@ int hov_ti_reverse(
         if (nonzero) /* ??? question: why here? */
           nonzero[l][indexi] = static_cast<short>(ARES);
 #endif /* _HOV_ */
-        ARES_INC_O;
-        for (int i = 0; i < k; i++)
-          RESULTS(l, indexi, i) = ARES_INC;
+        /* whatever the element held before does not depend on later uses */
+        ARES_INC = 0.0;
+        for (int i = 0; i < k; i++) {
+          RESULTS(l, indexi, i) = ARES;
+          ARES_INC = 0.0;
+        }
       }
 
       GET_TAYL(res, k, p)
-- 
2.43.0


From 0917e482b158f450fabf657907f03e56b2a0d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 11/89] fix: asin/acos/acosh/atanh test the argument, not the
 result, for the domain boundary

With an rvalue argument the result reuses its location, so the boundary
test of the forward sweeps looked at the freshly computed result.
---
 ADOL-C/src/uni5_for.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 5186f6e..0b6cb0c 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -2724,6 +2724,9 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
+#if !defined(_ZOS_) && !defined(_INT_FOR_) && !defined(_INDO_)
+      T0arg = dp_T0[arg1]; /* res may be the location of arg1 */
+#endif
       dp_T0[res] = asin(dp_T0[arg1]);
 #endif /* !_NTIGHT_ */
 
@@ -2751,7 +2754,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (T0arg == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_nan();
@@ -2770,7 +2773,7 @@ int hov_forward(
           TRES = r0;
           VEC_INC(Tres, k)
         }
-      else if (dp_T0[arg1] == -1.0)
+      else if (T0arg == -1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_inf();
@@ -2824,6 +2827,9 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
+#if !defined(_ZOS_) && !defined(_INT_FOR_) && !defined(_INDO_)
+      T0arg = dp_T0[arg1]; /* res may be the location of arg1 */
+#endif
       dp_T0[res] = acos(dp_T0[arg1]);
 #endif /* !_NTIGHT_ */
 
@@ -2851,7 +2857,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (T0arg == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_nan();
@@ -2870,7 +2876,7 @@ int hov_forward(
           TRES = r0;
           VEC_INC(Tres, k)
         }
-      else if (dp_T0[arg1] == -1.0)
+      else if (T0arg == -1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = -tape.make_inf();
@@ -2985,6 +2991,9 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
+#if !defined(_ZOS_) && !defined(_INT_FOR_) && !defined(_INDO_)
+      T0arg = dp_T0[arg1]; /* res may be the location of arg1 */
+#endif
       dp_T0[res] = acosh(dp_T0[arg1]);
 #endif /* !_NTIGHT_ */
 
@@ -3012,7 +3021,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (T0arg == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_inf();
@@ -3070,6 +3079,9 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
+#if !defined(_ZOS_) && !defined(_INT_FOR_) && !defined(_INDO_)
+      T0arg = dp_T0[arg1]; /* res may be the location of arg1 */
+#endif
       dp_T0[res] = atanh(dp_T0[arg1]);
 #endif /* !_NTIGHT_ */
 
@@ -3097,7 +3109,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (T0arg == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_nan();
@@ -3119,7 +3131,7 @@ int hov_forward(
             *Tres++ = tape.make_nan();
 #endif /* _HIGHER_ORDER_ */
         }
-      else if (dp_T0[arg1] == -1.0)
+      else if (T0arg == -1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_inf();
-- 
2.43.0


From 07c8ed4d1aca07721c690899dce46b5db76bdd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 12/89] fix: a forward sweep aborted by a branch switch leaves
 no Taylor stack to reverse through

---
 ADOL-C/src/uni5_for.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 0b6cb0c..abed49a 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5843,7 +5843,8 @@ int hov_forward(
 #endif /* ADOLC_DEBUG */
 
 #if defined(_KEEP_)
-  if (keep)
+  /* an aborted sweep leaves an incomplete Taylor stack */
+  if (keep && ret_c != -1)
     tape.taylor_close();
 #endif
 
-- 
2.43.0


From 6b58133dc28b0b4d1e639f5aa8ca08b9fccdc099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 13/89] fix: vec_jac with repeat returns the code of the
 reverse sweep instead of -1

---
 ADOL-C/src/drivers/drivers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index ca42270..593da87 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -54,7 +54,7 @@ int gradient(short tag, int n, const double *argument, double *result) {
 /* vec_jac(tag, m, n, repeat, x[n], u[m], v[n])                             */
 int vec_jac(short tag, int m, int n, int repeat, const double *argument,
             const double *lagrange, double *row) {
-  int rc = -1;
+  int rc = 3;
   double *y = NULL;
 
   if (!repeat) {
-- 
2.43.0


From 8ba41a96b99aabd7e325b3f016229606cdaf67d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 14/89] fix: large_jacobian stays inside the matrix when runs
 does not divide the number of independents

---
 ADOL-C/src/drivers/drivers.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index 593da87..deaf22c 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -104,7 +104,7 @@ int jacobian(short tag, int depen, int indep, const double *argument,
 
 int large_jacobian(short tag, int depen, int indep, int runns, double *argument,
                    double *result, double **jacobian) {
-  int rc, dirs, i;
+  int rc = 3, dirs, i;
   double **I;
 
   I = myallocI2(indep);
@@ -115,13 +115,13 @@ int large_jacobian(short tag, int depen, int indep, int runns, double *argument,
   dirs = indep / runns;
   if (indep % runns)
     ++dirs;
-  for (i = 0; i < runns - 1; ++i) {
-    rc = fov_offset_forward(tag, depen, indep, dirs, i * dirs, argument, I,
-                            result, jacobian);
+  for (i = 0; i < indep; i += dirs) {
+    // the number of runs need not divide the number of independents
+    if (dirs > indep - i)
+      dirs = indep - i;
+    MINDEC(rc, fov_offset_forward(tag, depen, indep, dirs, i, argument, I,
+                                  result, jacobian));
   }
-  dirs = indep - (runns - 1) * dirs;
-  rc = fov_offset_forward(tag, depen, indep, dirs, indep - dirs, argument, I,
-                          result, jacobian);
   myfreeI2(indep, I);
   return rc;
 }
-- 
2.43.0


From 455261ffda7bb75181d611eb3eecb042d8dfd599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:21 +0000
Subject: [PATCH 15/89] fix: higher order vector reverse treats absolute values
 in every weight direction

---
 ADOL-C/src/ho_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index dcc3a5f..95a70b4 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -350,7 +350,7 @@ int hov_ti_reverse(
 #ifdef _HOV_
   const int p = nrows;
   const int pk1 = p * k1;
-  const int q = 1;
+  const int q = p;
 #elif _HOS_OV_
   const int p = nrows;
   const int pk1 = p * k1;
-- 
2.43.0


From 8edcba7dec62e688bc6d701c448e6d57a5ff28fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:21 +0000
Subject: [PATCH 16/89] fix: hos_ov_reverse recomputes every direction of an
 incremented product

---
 ADOL-C/src/ho_rev.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 95a70b4..18871b5 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1028,10 +1028,10 @@ int hov_ti_reverse(
           HOV_INC(Ares, k)
           HOV_INC(Aarg1, k)
           HOV_INC(Aarg2, k)
-          HOS_OV_INC(Targ1, k)
-          HOS_OV_INC(Targ2, k)
-          HOS_OV_INC(Tres, k)
         }
+        HOS_OV_INC(Targ1, k)
+        HOS_OV_INC(Targ2, k)
+        HOS_OV_INC(Tres, k)
       }
       break;
 
@@ -1077,10 +1077,10 @@ int hov_ti_reverse(
           HOV_INC(Ares, k)
           HOV_INC(Aarg1, k)
           HOV_INC(Aarg2, k)
-          HOS_OV_INC(Targ1, k)
-          HOS_OV_INC(Targ2, k)
-          HOS_OV_INC(Tres, k)
         }
+        HOS_OV_INC(Targ1, k)
+        HOS_OV_INC(Targ2, k)
+        HOS_OV_INC(Tres, k)
       }
       break;
 
-- 
2.43.0


From ea34d417efedf0d87662cd73910415131d9b14ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 17/89] fix: higher order reverse clears the whole adjoint of
 floor and addresses that of ceil's argument

---
 ADOL-C/src/ho_rev.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 18871b5..128b950 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1832,6 +1832,7 @@ int hov_ti_reverse(
       coval = (coval != ceil(*rpp_T[arg]));
 
       ASSIGN_A(Ares, rpp_A[res])
+      ASSIGN_A(Aarg, rpp_A[arg])
 
       for (int l = 0; l < p; l++)
         if (0 == ARES) {
@@ -1867,7 +1868,7 @@ int hov_ti_reverse(
           HOV_INC(Aarg, k1)
           HOV_INC(Ares, k1)
         } else {
-          ARES = 0.0;
+          ARES_INC = 0.0;
           AARG_INC = 5.0;
           for (int i = 0; i < k; i++) {
             if ((coval != 0.0) && (ARES != 0.0))
-- 
2.43.0


From 6c6e1e7a1ab60eefc749f012f63ce47c71c1155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:02 +0000
Subject: [PATCH 18/89] fix: first order reverse compares floor with its own
 argument for the return code

---
 ADOL-C/src/fo_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index c737339..86db57d 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1742,7 +1742,7 @@ int int_reverse_safe(
       ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
 
 #if !defined(_NTIGHT_)
-      coval = (coval != floor(TARG1));
+      coval = (coval != floor(TARG));
 #endif /* !_NTIGHT_ */
 
       FOR_0_LE_l_LT_p {
-- 
2.43.0


From b0c7153254aaf3b6c10bd3f81d0a3a0860640d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 19/89] fix: reverse sweeps report a branch change of a
 conditional assignment when it did change

The branch taken with an unsatisfied condition tested the recorded
condition for being unsatisfied as well, so an unchanged branch lowered
the return code to 2 and a changed one did not.
---
 ADOL-C/src/fo_rev.cpp | 16 ++++++++--------
 ADOL-C/src/ho_rev.cpp | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 86db57d..cb4c76c 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1799,7 +1799,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval <= 0.0) && (*Ares != 0))
+            if ((coval > 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -1810,7 +1810,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval > 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -1863,7 +1863,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval < 0.0) && (*Ares != 0))
+            if ((coval >= 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -1874,7 +1874,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval >= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -2454,7 +2454,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval <= 0.0) && (*Ares != 0))
+            if ((coval > 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -2465,7 +2465,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval > 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -2512,7 +2512,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval < 0.0) && (*Ares != 0))
+            if ((coval >= 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -2523,7 +2523,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval >= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 128b950..56259f1 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1937,7 +1937,7 @@ int hov_ti_reverse(
                 AARG1 = 5.0;
                 AARG2_INC = 5.0;
               } else {
-                if (coval <= 0.0)
+                if (coval > 0.0)
                   MINDEC(ret_c, 2);
                 MAXDEC(AARG2, ARES);
                 AARG2_INC_O;
@@ -1959,7 +1959,7 @@ int hov_ti_reverse(
                 MINDEC(ret_c, 0);
                 AARG1 = 5.0;
                 AARG2 = 5.0;
-              } else if (coval <= 0.0)
+              } else if (coval > 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2016,7 +2016,7 @@ int hov_ti_reverse(
               HOV_INC(Ares, k1)
               HOV_INC(Aarg2, k1)
             } else {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
               MAXDEC(AARG2, ARES);
               AARG2_INC_O;
@@ -2032,7 +2032,7 @@ int hov_ti_reverse(
         else
           for (int l = 0; l < p; l++) {
             if (ARES != 0.0) {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2620,7 +2620,7 @@ int hov_ti_reverse(
                 AARG1 = 5.0;
                 AARG2_INC = 5.0;
               } else {
-                if (coval <= 0.0)
+                if (coval > 0.0)
                   MINDEC(ret_c, 2);
                 MAXDEC(AARG2, ARES);
                 AARG2_INC_O;
@@ -2642,7 +2642,7 @@ int hov_ti_reverse(
                 MINDEC(ret_c, 0);
                 AARG1 = 5.0;
                 AARG2 = 5.0;
-              } else if (coval <= 0.0)
+              } else if (coval > 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2703,7 +2703,7 @@ int hov_ti_reverse(
               HOV_INC(Ares, k1)
               HOV_INC(Aarg2, k1)
             } else {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
               MAXDEC(AARG2, ARES);
               AARG2_INC_O;
@@ -2719,7 +2719,7 @@ int hov_ti_reverse(
         else
           for (int l = 0; l < p; l++) {
             if (ARES != 0.0) {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
-- 
2.43.0


From a135c95b831e20a6a4fba1243bcd7c4a57625905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 20/89] fix: re-recording a tape kept on disk closed its old
 file twice

---
 ADOL-C/include/adolc/valuetape/tapeinfos.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/include/adolc/valuetape/tapeinfos.h b/ADOL-C/include/adolc/valuetape/tapeinfos.h
index 344a58e..b8bd242 100644
--- a/ADOL-C/include/adolc/valuetape/tapeinfos.h
+++ b/ADOL-C/include/adolc/valuetape/tapeinfos.h
@@ -196,9 +196,8 @@ struct TapeInfos {
     using ADOLCError::ErrorType::CANNOT_REMOVE_FILE;
     if (Info::file(*this) == nullptr) {
       if constexpr (!std::is_same_v<Info, TayInfo<TapeInfos, ErrorType>>) {
-        Info::openFile(*this, fileName);
-        if (Info::file(*this) != nullptr) {
-          fclose(Info::file(*this));
+        if (FILE *oldFile = fopen(fileName, "rb")) {
+          fclose(oldFile);
           if (Info::removeFile(fileName)) {
             fail(CANNOT_REMOVE_FILE, CURRENT_LOCATION);
           }
-- 
2.43.0


From 5975498d6e3cac35708ba5cf354bfe2009bde83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 21/89] fix: reading back Taylor coefficients across a buffer
 boundary was off by one

---
 ADOL-C/src/valuetape/tapeinfos.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index 869b21b..f22b016 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -85,7 +85,7 @@ void TapeInfos::freeTapeResources() {
 /****************************************************************************/
 void TapeInfos::write_taylor(double *taylorCoefficientPos, std::ptrdiff_t keep,
                              const char *tay_fileName) {
-  while (tayBuffer_.position() > tayBuffer_.capacity() - keep) {
+  while (static_cast<size_t>(keep) > tayBuffer_.remainingCapacity()) {
     for (auto i = tayBuffer_.position(); i < tayBuffer_.capacity(); ++i) {
       tayBuffer_[i] = *taylorCoefficientPos;
       ++taylorCoefficientPos;
@@ -122,7 +122,7 @@ void TapeInfos::write_taylors(double *taylorCoefficientPos, int keep,
 void TapeInfos::write_scaylors(const double *taylorCoefficientPos,
                                std::ptrdiff_t size, const char *tay_fileName) {
   size_t pos = 0;
-  while (tayBuffer_.position() > tayBuffer_.capacity() - size) {
+  while (static_cast<size_t>(size) > tayBuffer_.remainingCapacity()) {
     std::span<double> taySpan(tayBuffer_.current(),
                               tayBuffer_.begin() + tayBuffer_.capacity());
     for (double &tay : taySpan) {
@@ -146,7 +146,7 @@ void TapeInfos::get_taylors(double *taylorCoefficients, std::ptrdiff_t degree) {
   while (tayBuffer_.position() < static_cast<size_t>(degree)) {
     std::span<double> taySpan(tayBuffer_.begin(), tayBuffer_.current());
     for (auto tay = taySpan.rbegin(); tay != taySpan.rend(); tay++) {
-      *(T--) = *tay;
+      *(--T) = *tay;
     }
     degree -= tayBuffer_.position();
     get_tay_block_r();
-- 
2.43.0


From 1fb1e790b08c81aac0ea10880274b647f3bb65aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 22/89] fix: trace_on with buffer sizes never recorded,
 trace_on of a tape in use changed the tape stack

---
 ADOL-C/src/tape_interface.cpp | 41 ++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/ADOL-C/src/tape_interface.cpp b/ADOL-C/src/tape_interface.cpp
index e680731..9cc93e9 100644
--- a/ADOL-C/src/tape_interface.cpp
+++ b/ADOL-C/src/tape_interface.cpp
@@ -39,11 +39,11 @@
 int trace_on(short tapeId, int keepTaylors) {
 
   ValueTape &tape = findTape(tapeId);
+  // fails if the tape is in use, so nothing may be changed before
+  int retval = tape.initNewTape();
   // store Id to restore it after trace_off
   currentTapeStack().push(currentTapePtr());
   setCurrentTape(tapeId);
-
-  int retval = tape.initNewTape();
 #ifdef ADOLC_MEDIPACK_SUPPORT
   tape.mediInitTape(tapeId);
 #endif
@@ -63,31 +63,28 @@ int trace_on(short tapeId, int keepTaylors, size_t obs, size_t lbs, size_t vbs,
              size_t tbs, int skipFileCleanup) {
 
   ValueTape &tape = findTape(tapeId);
+  // fails if the tape is in use, so nothing may be changed before
+  int retval = tape.initNewTape();
   // store Id to restore it after trace_off
   currentTapeStack().push(currentTapePtr());
   setCurrentTape(tapeId);
-
-  int retval = tape.initNewTape();
-  if (retval) {
 #ifdef ADOLC_MEDIPACK_SUPPORT
-    tape.mediInitTape(tapeId);
+  tape.mediInitTape(tapeId);
 #endif
-    // reset the tape buffers
-    tape.freeTapeResources();
-    tape.tapestats(TapeInfos::OP_BUFFER_SIZE, obs);
-    tape.tapestats(TapeInfos::LOC_BUFFER_SIZE, lbs);
-    tape.tapestats(TapeInfos::VAL_BUFFER_SIZE, vbs);
-    tape.tapestats(TapeInfos::TAY_BUFFER_SIZE, tbs);
-    tape.keepTaylors(keepTaylors);
-    tape.tapestats(TapeInfos::NO_MIN_MAX, tape.nominmaxFlag());
-    tape.skipFileCleanup(skipFileCleanup);
-    if (keepTaylors != 0)
-      tape.deg_save(1);
-    tape.start_trace();
-    tape.take_stock(); /* record all existing adoubles on the tape */
-    return retval;
-  } else
-    return -1;
+  // reset the tape buffers
+  tape.freeTapeResources();
+  tape.tapestats(TapeInfos::OP_BUFFER_SIZE, obs);
+  tape.tapestats(TapeInfos::LOC_BUFFER_SIZE, lbs);
+  tape.tapestats(TapeInfos::VAL_BUFFER_SIZE, vbs);
+  tape.tapestats(TapeInfos::TAY_BUFFER_SIZE, tbs);
+  tape.keepTaylors(keepTaylors);
+  tape.tapestats(TapeInfos::NO_MIN_MAX, tape.nominmaxFlag());
+  tape.skipFileCleanup(skipFileCleanup);
+  if (keepTaylors != 0)
+    tape.deg_save(1);
+  tape.start_trace();
+  tape.take_stock(); /* record all existing adoubles on the tape */
+  return retval;
 }
 
 void trace_off(int flag) {
-- 
2.43.0


From 4454ae512e9616b89c677cb006e5b1e87a119913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 23/89] fix: a sweep left by an exception releases its tape

---
 ADOL-C/include/adolc/valuetape/valuetape.h | 13 +++++++++++++
 ADOL-C/src/fo_rev.cpp                      |  1 +
 ADOL-C/src/ho_rev.cpp                      |  1 +
 ADOL-C/src/tapedoc/tapedoc.cpp             |  1 +
 ADOL-C/src/uni5_for.cpp                    |  1 +
 5 files changed, 17 insertions(+)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index adb2ea6..68629d7 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -818,6 +818,19 @@ public:
   }
   // finish a forward or reverse sweep
   void end_sweep();
+  /// Releases the tape if a sweep is left by an exception.
+  class SweepGuard {
+    ValueTape &tape_;
+
+  public:
+    explicit SweepGuard(ValueTape &tape) : tape_(tape) {}
+    SweepGuard(const SweepGuard &) = delete;
+    SweepGuard &operator=(const SweepGuard &) = delete;
+    ~SweepGuard() {
+      if (tape_.workMode() == TapeInfos::READ_ACCESS)
+        tape_.end_sweep();
+    }
+  };
   // initialization for the taping process -> buffer allocation, sets files
   // names, and calls appropriate setup routines
   void start_trace();
diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index cb4c76c..29e2cd4 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -446,6 +446,7 @@ int int_reverse_safe(
   /*------------------------------------------------------------------------*/
   /* Set up stuff for the tape */
   /* Initialize the Reverse Sweep */
+  ValueTape::SweepGuard sweepGuard(tape);
   tape.init_sweep<ValueTape::Reverse>();
 
   if ((to_size_t(depen) != tape.tapestats(TapeInfos::NUM_DEPENDENTS)) ||
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 56259f1..d13e9e1 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -402,6 +402,7 @@ int hov_ti_reverse(
   /* Set up stuff for the tape */
 
   /* Initialize the Reverse Sweep */
+  ValueTape::SweepGuard sweepGuard(tape);
   tape.init_sweep<ValueTape::Reverse>();
 
   if ((to_size_t(depen) != tape.tapestats(TapeInfos::NUM_DEPENDENTS)) ||
diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index 50b4bd6..38bdde5 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -266,6 +266,7 @@ void tape_doc(short tnum,     /* tape id */
   int i;
   double aDouble;
 #endif
+  ValueTape::SweepGuard sweepGuard(tape);
   tape.init_sweep<ValueTape::Forward>();
   tag = tnum;
 
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index abed49a..b22bc88 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -1093,6 +1093,7 @@ int hov_forward(
   /* Set up stuff for the tape */
 
   /* Initialize the Forward Sweep */
+  ValueTape::SweepGuard sweepGuard(tape);
   tape.init_sweep<ValueTape::Forward>();
 
   if ((to_size_t(depcheck) != tape.tapestats(TapeInfos::NUM_DEPENDENTS)) ||
-- 
2.43.0


From 3fcde607a14ca462e469aeb317a3ceaa1734767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 24/89] fix: a new trace starts with clean buffers of the
 configured sizes

---
 ADOL-C/src/valuetape/valuetape.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index d30ce26..6a2cc31 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -82,7 +82,21 @@ int ValueTape::initNewTape() {
   tapestats(TapeInfos::LOC_BUFFER_SIZE, locationBufferSize());
   tapestats(TapeInfos::VAL_BUFFER_SIZE, valueBufferSize());
   tapestats(TapeInfos::TAY_BUFFER_SIZE, taylorBufferSize());
-  ;
+  // nothing of the new trace is on disk
+  tapestats(TapeInfos::OP_FILE_ACCESS, 0);
+  tapestats(TapeInfos::LOC_FILE_ACCESS, 0);
+  tapestats(TapeInfos::VAL_FILE_ACCESS, 0);
+  // the previous trace may have used buffers of other sizes
+  if (tapeInfos_.opBuffer_.capacity() != operationBufferSize())
+    tapeInfos_.opBuffer_.resetBuffer(nullptr, 0);
+  if (tapeInfos_.locBuffer_.capacity() != locationBufferSize())
+    tapeInfos_.locBuffer_.resetBuffer(nullptr, 0);
+  if (tapeInfos_.valBuffer_.capacity() != valueBufferSize())
+    tapeInfos_.valBuffer_.resetBuffer(nullptr, 0);
+  if (tapeInfos_.tayBuffer_.capacity() != taylorBufferSize()) {
+    tapeInfos_.tayBuffer_.resetBuffer(nullptr, 0);
+    tapeInfos_.tayBuffer_.closeFile();
+  }
   return 0;
 }
 
-- 
2.43.0


From 5a2d53ce33abd8a60f2153545425c07981fe9209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 25/89] fix: parameters that do not fit into the value buffer

---
 ADOL-C/src/valuetape/valuetape.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 6a2cc31..d2d412e 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -353,8 +353,8 @@ void ValueTape::save_params() {
            tapestats(TapeInfos::NUM_PARAM) * sizeof(double));
 
   free_all_taping_params();
-  if (tapeInfos_.valBuffer_.position() <
-      tapeInfos_.valBuffer_.capacity() - tapestats(TapeInfos::NUM_PARAM))
+  if (tapestats(TapeInfos::NUM_PARAM) <
+      tapeInfos_.valBuffer_.remainingCapacity())
     put_vals_notWriteBlock(paramstore(), tapestats(TapeInfos::NUM_PARAM));
   else {
     size_t np = tapestats(TapeInfos::NUM_PARAM);
@@ -643,6 +643,7 @@ void ValueTape::end_sweep() {
 /****************************************************************************/
 void ValueTape::discard_params_r(void) {
   constexpr size_t chunkSize = ADOLC_IO_CHUNK_SIZE / sizeof(double);
+  const size_t number = tapestats(TapeInfos::VAL_BUFFER_SIZE);
   size_t ip = tapestats(TapeInfos::NUM_PARAM);
   size_t rsize = 0;
   size_t remain = 0;
@@ -654,28 +655,26 @@ void ValueTape::discard_params_r(void) {
     if (ip > 0) {
       fseek(tapeInfos_.valBuffer_.file(),
             static_cast<long>(sizeof(double) *
-                              (tapeInfos_.valBuffer_.numOnTape() -
-                               TapeInfos::VAL_BUFFER_SIZE)),
+                              (tapeInfos_.valBuffer_.numOnTape() - number)),
             SEEK_SET);
 
-      for (size_t i = 0; i < to_size_t(TapeInfos::VAL_BUFFER_SIZE / chunkSize);
-           ++i)
+      for (size_t i = 0; i < number / chunkSize; ++i)
         if (fread(tapeInfos_.valBuffer_.begin() + i * chunkSize,
                   chunkSize * sizeof(double), 1,
                   tapeInfos_.valBuffer_.file()) != 1)
           ADOLCError::fail(ADOLCError::ErrorType::EVAL_VAL_TAPE_READ_FAILED,
                            CURRENT_LOCATION);
 
-      remain = TapeInfos::VAL_BUFFER_SIZE % chunkSize;
+      remain = number % chunkSize;
       if (remain != 0)
-        if (fread(tapeInfos_.valBuffer_.begin() + TapeInfos::VAL_BUFFER_SIZE,
+        if (fread(tapeInfos_.valBuffer_.begin() + (number - remain),
                   remain * sizeof(double), 1,
                   tapeInfos_.valBuffer_.file()) != 1)
           ADOLCError::fail(ADOLCError::ErrorType::EVAL_VAL_TAPE_READ_FAILED,
                            CURRENT_LOCATION);
 
       tapeInfos_.valBuffer_.numOnTape(tapeInfos_.valBuffer_.numOnTape() -
-                                      TapeInfos::VAL_BUFFER_SIZE);
+                                      number);
       tapeInfos_.valBuffer_.position(tapeInfos_.valBuffer_.capacity());
     }
   }
-- 
2.43.0


From d912c16f624463bf3321c5ffca53ccf02c02f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 26/89] fix: set_param_vec with a wrong number of parameters
 left the tape locked

---
 ADOL-C/src/valuetape/valuetape.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index d2d412e..437627f 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -552,7 +552,7 @@ void ValueTape::set_param_vec(short tag, size_t numparam,
   /* make room for tapeInfos and read tapestats if necessary, keep value
    * stack information */
   openTape();
-  workMode(TapeInfos::WRITE_ACCESS);
+  workMode(TapeInfos::NO_MODE);
   if (tapestats(TapeInfos::NUM_PARAM) != numparam)
     fail(PARAM_COUNTS_MISMATCH, CURRENT_LOCATION,
          FailInfo{.info1 = tag,
@@ -567,7 +567,6 @@ void ValueTape::set_param_vec(short tag, size_t numparam,
     paramstore_view[i] = paramvec[i];
 
   finish_tay_file();
-  workMode(TapeInfos::NO_MODE);
 }
 
 /**
-- 
2.43.0


From 5daa4b3e15c66ca7b08218ed50978ae98ab24d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 27/89] fix: reading tape statistics discarded parameters set
 by set_param_vec

---
 ADOL-C/src/valuetape/valuetape.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 437627f..6507bae 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -623,7 +623,8 @@ void ValueTape::read_tape_stats() {
 
   compare_adolc_ids(get_adolc_id(), tape_ADOLC_ID);
   fclose(loc_file);
-  if (tapestats(TapeInfos::NUM_PARAM) > 0)
+  // values that are already there may have been set by set_param_vec
+  if (tapestats(TapeInfos::NUM_PARAM) > 0 && !paramstore())
     read_params();
 }
 
-- 
2.43.0


From 5199fdbbce7e3d1e909fa6be4967c886d6e630ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:20 +0000
Subject: [PATCH 28/89] fix: evaluating a tape nothing was recorded on hangs

---
 ADOL-C/src/valuetape/valuetape.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 6507bae..efb151c 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -111,6 +111,10 @@ void ValueTape::openTape() {
   if (workMode() == TapeInfos::WRITE_ACCESS) {
     fail(TAPING_TAPE_STILL_IN_USE, CURRENT_LOCATION,
          FailInfo{.info1 = tapeId()});
+  } else if (tapestats(TapeInfos::NUM_OPERATIONS) == 0) {
+    // nothing has ever been recorded on this tape
+    fail(ADOLCError::ErrorType::INTEGER_TAPE_FOPEN_FAILED, CURRENT_LOCATION,
+         FailInfo{.info1 = tapeId()});
   } else if (keepTaylors() == 0 && tapestats(TapeInfos::OP_FILE_ACCESS) == 1 &&
              tapestats(TapeInfos::LOC_FILE_ACCESS) == 1 &&
              tapestats(TapeInfos::VAL_FILE_ACCESS) == 1) {
-- 
2.43.0


From 417834bb2b5e434f2e17d82083d98c285b4797d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:35 +0000
Subject: [PATCH 29/89] fix: trace_off with keep on a tape without variables
 crashed

---
 ADOL-C/src/valuetape/valuetape.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index efb151c..2fa8499 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -171,6 +171,10 @@ void ValueTape::take_stock() {
 size_t ValueTape::keep_stock() {
   size_t loc2;
 
+  /* no adouble was ever created on this tape */
+  if (globalTapeVars_.storeSize == 0)
+    return 0;
+
   /* save all the final adoubles when finishing tracing */
   loc2 = globalTapeVars_.storeSize - 1;
 
-- 
2.43.0


From 3e3aafbd0cefd15c6ea64aebdc484991d461947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:25 +0000
Subject: [PATCH 30/89] fix: higher order forward sweeps accepted any keep

---
 ADOL-C/include/adolc/adolcerror.h |  1 +
 ADOL-C/src/adolcerror.cpp         |  7 +++++++
 ADOL-C/src/uni5_for.cpp           | 12 ++++++++++--
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/include/adolc/adolcerror.h b/ADOL-C/include/adolc/adolcerror.h
index 2276d38..33b68e0 100644
--- a/ADOL-C/include/adolc/adolcerror.h
+++ b/ADOL-C/include/adolc/adolcerror.h
@@ -223,6 +223,7 @@ enum class ErrorType : size_t {
   FWD_COUNTS_MISMATCH,
   FWD_FO_KEEP,
   FWD_ZO_KEEP,
+  FWD_HO_KEEP,
 
   DIRGRAD_NOT_ENOUGH_DIRS,
 
diff --git a/ADOL-C/src/adolcerror.cpp b/ADOL-C/src/adolcerror.cpp
index 9b1c357..05456b0 100644
--- a/ADOL-C/src/adolcerror.cpp
+++ b/ADOL-C/src/adolcerror.cpp
@@ -579,6 +579,13 @@ void fail(ErrorType error, source_location LocInfo, const FailInfo &failinfo) {
                      LocInfo);
     break;
 
+  case to_underlying(ErrorType::FWD_HO_KEEP):
+    throw ADOLCError("ADOL-C error: higher order forward cannot save"
+                     " negative or more \nthan its degree + 1 many taylor "
+                     "coefficients!\n",
+                     LocInfo);
+    break;
+
   case to_underlying(ErrorType::DIRGRAD_NOT_ENOUGH_DIRS):
     throw ADOLCError(" NOT ENOUGH DIRECTIONS !!!!\n", LocInfo);
     break;
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index b22bc88..4a069aa 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -1141,7 +1141,7 @@ int hov_forward(
 #if defined(_ZOS_) /* ZOS */
 
 #if defined(_KEEP_)
-  if (keep > 1)
+  if (keep < 0 || keep > 1)
     ADOLCError::fail(ADOLCError::ErrorType::FWD_ZO_KEEP, CURRENT_LOCATION);
 #endif
 #if defined(_KEEP_)
@@ -1156,7 +1156,7 @@ int hov_forward(
 #else /* FOS */
 #if defined(_FOS_)
 #if defined(_KEEP_)
-  if (keep > 2)
+  if (keep < 0 || keep > 2)
     ADOLCError::fail(ADOLCError::ErrorType::FWD_FO_KEEP, CURRENT_LOCATION);
 
 #endif
@@ -1227,6 +1227,10 @@ int hov_forward(
   /*--------------------------------------------------------------------------*/
 #else /* HOS */
 #if defined(_HOS_)
+#if defined(_KEEP_)
+  if (keep < 0 || keep > k + 1)
+    ADOLCError::fail(ADOLCError::ErrorType::FWD_HO_KEEP, CURRENT_LOCATION);
+#endif
   dpp_T = myalloc2(tape.tapestats(TapeInfos::NUM_MAX_LIVES), k);
 #define TAYLOR_BUFFER dpp_T
   dp_z = myalloc1(k);
@@ -1241,6 +1245,10 @@ int hov_forward(
 
   /*--------------------------------------------------------------------------*/
 #else /* HOV and HOV_WK */
+#if defined(_KEEP_)
+  if (keep < 0 || keep > k + 1)
+    ADOLCError::fail(ADOLCError::ErrorType::FWD_HO_KEEP, CURRENT_LOCATION);
+#endif
   dpp_T = myalloc2(tape.tapestats(TapeInfos::NUM_MAX_LIVES), p * k);
 #define TAYLOR_BUFFER dpp_T
   dp_z = myalloc1(k);
-- 
2.43.0


From 4094e4646b8ecdf380317587109cc011fe73c12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 31/89] fix: reverse sweep over a tape on disk without values
 crashed

---
 ADOL-C/include/adolc/valuetape/valuetape.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index 68629d7..c30258c 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -741,7 +741,8 @@ public:
    */
   template <InfoType<TapeInfos, ErrorType> Info> void prepare_rev() {
     size_t lengthLB = tapestats(Info::num);
-    if (tapestats(Info::fileAccess) == 1) {
+    // there is no file if nothing was written, e.g., without constants
+    if (tapestats(Info::fileAccess) == 1 && lengthLB != 0) {
       setFilePosition<Info>();
 
       // size of last (possibly partial) block
-- 
2.43.0


From 1e000605bad1d25112a49e653d23f3965143bb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:40 +0000
Subject: [PATCH 32/89] fix: a Taylor buffer that is exactly full and not on
 disk could not be reversed

---
 ADOL-C/src/valuetape/valuetape.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 2fa8499..3b924de 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -264,8 +264,13 @@ void ValueTape::taylor_back() {
 
   nextBufferNumber(tapeInfos_.tayBuffer_.numOnTape() /
                    tapestats(TapeInfos::TAY_BUFFER_SIZE));
-  const size_t number =
+  size_t number =
       tapeInfos_.tayBuffer_.numOnTape() % tapestats(TapeInfos::TAY_BUFFER_SIZE);
+  // the last block is a full one and may never have been written to disk
+  if (number == 0 && nextBufferNumber() > 0) {
+    number = tapestats(TapeInfos::TAY_BUFFER_SIZE);
+    decrement_nextBufferNumber();
+  }
   tapeInfos_.tayBuffer_.position(number);
 
   if (lastTayBlockInCore() != 1) {
-- 
2.43.0


From d93a053c07e8eaa865416e06a8d7c510b05b0dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 33/89] fix: forward reading of operation blocks counts whole
 chunks

---
 ADOL-C/src/valuetape/tapeinfos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index f22b016..f242278 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -361,7 +361,7 @@ void TapeInfos::get_op_block_f() {
               remain * sizeof(unsigned char), 1, opBuffer_.file()) != 1)
       ADOLCError::fail(ADOLCError::ErrorType::EVAL_OP_TAPE_READ_FAILED,
                        CURRENT_LOCATION);
-  opBuffer_.numOnTape(opBuffer_.numOnTape() - remain);
+  opBuffer_.numOnTape(opBuffer_.numOnTape() - number);
   opBuffer_.position(0);
 }
 
-- 
2.43.0


From 1c7ee9102e7db7515fc8f2d3360c213f0d1d8b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:08 +0000
Subject: [PATCH 34/89] fix: reading a block in several chunks read too much
 for the last one

---
 ADOL-C/include/adolc/valuetape/valuetape.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index c30258c..90af444 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -620,7 +620,7 @@ public:
     const size_t remain = lengthBlock % Info::chunkSize;
     if (remain > 0) {
       auto returnCode =
-          read<TapeInfos, ErrorType, Info>(tapeInfos_, numChunks, lengthBlock);
+          read<TapeInfos, ErrorType, Info>(tapeInfos_, numChunks, remain);
       if (returnCode != 1)
         fail(Info::error, CURRENT_LOCATION);
     }
-- 
2.43.0


From 5b75e325c869f475a31f41fc56bb55f7f9a5a377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:48 +0000
Subject: [PATCH 35/89] fix: higher-order traceless cos returned minus sine

---
 ADOL-C/include/adolc/adtl_hov.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 6f8757e..c777c6f 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1070,7 +1070,7 @@ inline adouble cos(const adouble &a) {
 
   if (do_indo())
     tmp.add_to_pattern(a.get_pattern());
-  return tmp2;
+  return tmp;
 }
 
 inline adouble asin(const adouble &a) {
-- 
2.43.0


From c67dccef7209184d720f9bd56d3aaf63dd97750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:14 +0000
Subject: [PATCH 36/89] fix: higher-order traceless operator*= multiplied twice

---
 ADOL-C/include/adolc/adtl_hov.h | 37 +--------------------------------
 1 file changed, 1 insertion(+), 36 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index c777c6f..f2856d0 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -2182,42 +2182,7 @@ inline adouble &adouble::operator*=(const double v) {
 }
 
 inline adouble &adouble::operator*=(const adouble &a) {
-  if (unlikely(!adouble::_do_val() && adouble::_do_adval())) {
-    fprintf(DIAG_OUT, "ADOL-C error: Traceless: Incorrect mode, call "
-                      "setMode(enum Mode mode)\n");
-    throw logic_error("incorrect function call, errorcode=1");
-  }
-  if (likely(adouble::_do_adval() && adouble::_do_val()))
-    FOR_I_EQ_0_LT_NUMDIR
-  ADVAL_I = ADVAL_I * a.val + val * a.ADVAL_I;
-  if (do_val())
-    val *= a.val;
-
-  adouble tmp;
-  tmp.val = val * a.val;
-
-  if (do_hoval()) // ADTL_HOV
-  {
-    size_t i;
-    double sum;
-    for (size_t l = 0; l < adouble::numDir; l++) {
-      for (size_t k = 0; k < degree; k++) {
-        sum = val * a.ho_deriv[k][l] + ho_deriv[k][l] * a.val;
-        i = k - 1;
-        for (size_t j = 0; j < k; j++)
-          sum += ho_deriv[j][l] * a.ho_deriv[i - j][l];
-        tmp.ho_deriv[k][l] = sum;
-        sum = 0.0;
-      }
-      val = tmp.val;
-      for (size_t k = 0; k < degree; k++)
-        ho_deriv[k][l] = tmp.ho_deriv[k][l];
-    }
-  }
-
-  if (do_indo())
-    add_to_pattern(a.get_pattern());
-  return *this;
+  return *this = *this * a;
 }
 
 inline adouble &adouble::operator/=(const double v) {
-- 
2.43.0


From 0202ab4c3241bc6e86b23288f3888cc6c71b432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 37/89] fix: higher-order traceless operator/= set the value to
 zero

---
 ADOL-C/include/adolc/adtl_hov.h | 35 +--------------------------------
 1 file changed, 1 insertion(+), 34 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index f2856d0..df3c7fc 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -2202,40 +2202,7 @@ inline adouble &adouble::operator/=(const double v) {
 }
 
 inline adouble &adouble::operator/=(const adouble &a) {
-  if (unlikely(!adouble::_do_val() && adouble::_do_adval())) {
-    fprintf(DIAG_OUT, "ADOL-C error: Traceless: Incorrect mode, call "
-                      "setMode(enum Mode mode)\n");
-    throw logic_error("incorrect function call, errorcode=1");
-  }
-  if (likely(adouble::_do_adval() && adouble::_do_val()))
-    FOR_I_EQ_0_LT_NUMDIR
-  ADVAL_I = (ADVAL_I * a.val - val * a.ADVAL_I) / (a.val * a.val);
-  if (do_val())
-    val = val / a.val;
-
-  if (do_hoval()) // ADTL_HOV
-  {
-    adouble tmp;
-    size_t i;
-    double sum;
-    for (size_t l = 0; l < adouble::numDir; l++) {
-      for (size_t k = 0; k < degree; k++) {
-        sum = tmp.val * a.ho_deriv[k][l];
-        i = k - 1;
-        for (size_t j = 0; j < k; j++)
-          sum += tmp.ho_deriv[j][l] * a.ho_deriv[i - j][l];
-        tmp.ho_deriv[k][l] = (1.0 / a.val) * (ho_deriv[k][l] - sum);
-        sum = 0.0;
-      }
-      val = tmp.val;
-      for (size_t k = 0; k < degree; k++)
-        ho_deriv[k][l] = tmp.ho_deriv[k][l];
-    }
-  }
-
-  if (do_indo())
-    add_to_pattern(a.get_pattern());
-  return *this;
+  return *this = *this / a;
 }
 
 // not
-- 
2.43.0


From 9ef42777d663f9e39915a140419a13aef5d219fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 38/89] fix: higher-order traceless adouble + double aborted

---
 ADOL-C/include/adolc/adtl_hov.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index df3c7fc..8f26c82 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -515,9 +515,8 @@ inline adouble adouble::operator+() const { return *this; }
 
 // addition
 inline adouble adouble::operator+(const double v) const {
-  adouble tmp(val + v, adval);
-  if (do_indo())
-    tmp.add_to_pattern(get_pattern());
+  adouble tmp(*this);
+  tmp.val += v;
   return tmp;
 }
 
-- 
2.43.0


From b6f123a5e719adf35736a0fb7fb0a34e6b928d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 39/89] fix: higher-order traceless double + adouble threw

---
 ADOL-C/include/adolc/adtl_hov.h | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 8f26c82..aa4fbf8 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -539,26 +539,7 @@ inline adouble adouble::operator+(const adouble &a) const {
   return tmp;
 }
 
-inline adouble operator+(const double v, const adouble &a) {
-  if (do_hoval()) // ADTL_HOV  //how can this not be declared? it works fine in
-                  // the method above
-  {               // why was "a." necessary here and not after the next line?
-    std::cout << "Not implemented. " << std::endl;
-    throw std::exception();
-    // adouble tmp(v+a.val,a.ho_deriv); //TODO: does not exist yet
-  }
-  if (do_val() && do_indo()) {
-    adouble tmp(v + a.val, a.adval);
-    tmp.add_to_pattern(a.get_pattern());
-    return tmp;
-  }
-
-  adouble tmp;
-  if (do_indo()) {
-    tmp.add_to_pattern(a.get_pattern());
-  }
-  return tmp;
-}
+inline adouble operator+(const double v, const adouble &a) { return a + v; }
 
 // subtraction
 inline adouble adouble::operator-(const double v) const {
-- 
2.43.0


From 0d6198e30878ee298f61da66a4f868d718b78366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 40/89] fix: higher-order traceless adouble - double threw

---
 ADOL-C/include/adolc/adtl_hov.h | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index aa4fbf8..a0d3fb2 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -543,24 +543,8 @@ inline adouble operator+(const double v, const adouble &a) { return a + v; }
 
 // subtraction
 inline adouble adouble::operator-(const double v) const {
-  if (do_hoval()) // ADTL_HOV  //how can this not be declared? it works fine in
-                  // the method above
-  {               // why was "a." necessary here and not after the next line?
-    std::cout << "Not implemented. " << std::endl;
-    throw std::exception();
-    // adouble tmp(val-v, adval,ho_deriv); //TODO: does not exist yet
-  }
-  if (do_val() && do_indo()) {
-    adouble tmp(val - v, adval);
-    tmp.add_to_pattern(get_pattern());
-    return tmp;
-  }
-
-  // adouble tmp(val-v, adval); moved up
-  adouble tmp;
-  if (do_indo()) {
-    tmp.add_to_pattern(get_pattern());
-  }
+  adouble tmp(*this);
+  tmp.val -= v;
   return tmp;
 }
 
-- 
2.43.0


From 1e90fe199969a6ae836f75fd3b1ea6802f4959ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 41/89] fix: higher-order traceless cosh returned a*sinh(a)

---
 ADOL-C/include/adolc/adtl_hov.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index a0d3fb2..7413764 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1367,9 +1367,9 @@ inline adouble cosh(const adouble &a) {
   if (do_val())
     tmp.val = ADOLC_MATH_NSP::cosh(a.val);
   if (likely(adouble::_do_adval() && adouble::_do_val())) {
-    tmp2 = ADOLC_MATH_NSP::sinh(a.val);
+    const double sinh_val = ADOLC_MATH_NSP::sinh(a.val);
     FOR_I_EQ_0_LT_NUMDIR
-    tmp = a * tmp2;
+    tmp.ADVAL_I = a.ADVAL_I * sinh_val;
   }
 
   if (do_hoval()) // ADTL_HOV
-- 
2.43.0


From 84e56d3cfe21124504ee5675ee71661ce7c47193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 42/89] fix: higher-order traceless fabs ignored its argument

---
 ADOL-C/include/adolc/adtl_hov.h | 47 ++++-----------------------------
 1 file changed, 5 insertions(+), 42 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 7413764..d6bb53f 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1539,50 +1539,13 @@ inline adouble fabs(const adouble &a) {
   }
   if (do_hoval()) // ADTL_HOV
   {
-    // find leading Taylor coefficient
-
-    // TODO: do not forget to check the function value. it is the zero-th taylor
-    // coefficient
-
-    int *leading_sgn = (int *)alloca(sizeof(int) * adouble::degree);
-    for (size_t l = 0; l < adouble::numDir; l++) // Init
-    {
-      leading_sgn[l] = 1;
-    }
-    bool found;
-
-    for (size_t l = 0; l < adouble::numDir; l++) {
-      for (size_t k = 0; k < adouble::degree; k++) {
-        if (tmp.ho_deriv[k][l] > 0 && (!found)) {
-          leading_sgn[l] = 1;
-          found = true;
-          break;
-          // found leading coefficient for this direction. it is positive.
-          //  no need to do any further for this direction
-        }
-        if (tmp.ho_deriv[k][l] < 0 && (!found)) {
-          // found leading coefficient for this direction. it is negative.
-          found = true;
-          leading_sgn[l] = -1;
-          break;
-        }
-        /*
-        if(tmp.ho_deriv[k][l]=0 && (!found))
-        {
-                //not the leading Taylor coefficient
-                //continue searching
-        }
-        */
-      }
-      found = false;
-    }
-
-    // assume we found all leading Taylor coefficients
-
+    // the sign is that of the leading Taylor coefficient
     for (size_t l = 0; l < adouble::numDir; l++) {
+      int sgn = (a.val > 0) - (a.val < 0);
       for (size_t k = 0; k < adouble::degree; k++) {
-        tmp.ho_deriv[k][l] *= leading_sgn[l];
-        // TODO do not forget zero-th Taylor coefficient
+        if (sgn == 0)
+          sgn = (a.ho_deriv[k][l] > 0) - (a.ho_deriv[k][l] < 0);
+        tmp.ho_deriv[k][l] = sgn * a.ho_deriv[k][l];
       }
     }
   }
-- 
2.43.0


From f457c938a320b61de384fea12c7434384c309dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 43/89] fix: higher-order traceless erf and erfc left the
 higher derivatives unset

---
 ADOL-C/include/adolc/adtl_hov.h | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index d6bb53f..f59733c 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1925,6 +1925,19 @@ inline adouble erf(const adouble &a) {
     FOR_I_EQ_0_LT_NUMDIR
     tmp.ADVAL_I = tmp2 * a.ADVAL_I;
   }
+  if (do_hoval()) // ADTL_HOV
+  {
+    const adouble g = exp(-(a * a));
+    const double c =
+        2.0 / ADOLC_MATH_NSP_ERF::sqrt(ADOLC_MATH_NSP::acos(-1.0));
+    for (size_t l = 0; l < adouble::numDir; l++)
+      for (size_t k = 0; k < adouble::degree; k++) {
+        double sum = to_double(k + 1) * a.ho_deriv[k][l] * g.val;
+        for (size_t j = 0; j < k; j++)
+          sum += to_double(j + 1) * a.ho_deriv[j][l] * g.ho_deriv[k - 1 - j][l];
+        tmp.ho_deriv[k][l] = c * sum / to_double(k + 1);
+      }
+  }
   if (do_indo())
     tmp.add_to_pattern(a.get_pattern());
   return tmp;
@@ -1945,6 +1958,19 @@ inline adouble erfc(const adouble &a) {
     FOR_I_EQ_0_LT_NUMDIR
     tmp.ADVAL_I = tmp2 * a.ADVAL_I;
   }
+  if (do_hoval()) // ADTL_HOV
+  {
+    const adouble g = exp(-(a * a));
+    const double c =
+        -2.0 / ADOLC_MATH_NSP_ERF::sqrt(ADOLC_MATH_NSP::acos(-1.0));
+    for (size_t l = 0; l < adouble::numDir; l++)
+      for (size_t k = 0; k < adouble::degree; k++) {
+        double sum = to_double(k + 1) * a.ho_deriv[k][l] * g.val;
+        for (size_t j = 0; j < k; j++)
+          sum += to_double(j + 1) * a.ho_deriv[j][l] * g.ho_deriv[k - 1 - j][l];
+        tmp.ho_deriv[k][l] = c * sum / to_double(k + 1);
+      }
+  }
   if (do_indo())
     tmp.add_to_pattern(a.get_pattern());
   return tmp;
-- 
2.43.0


From a34d771c655e71430192367b2e0e2ce0d355c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 44/89] fix: higher-order traceless pow at zero returned a
 factorial

---
 ADOL-C/include/adolc/adtl_hov.h | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index f59733c..6940c5e 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1174,21 +1174,17 @@ inline adouble pow(const adouble &a, double v) {
   if (do_hoval()) // ADTL_HOV
   {
     if (a.val == 0.0) {
-      // idea: if v==adouble::degree  (as in: the power of a is equal to order
-      // of derivatives to be calculated)
-      //         then the derivative is a factorial of adouble::degree
-      //         tgamma(adouble::degree+1)
-      //  this is different than in GW08. The formula in the table gives a nan
-      //  for input zero.
-      double factorial_val = tgamma(v + 1.0);
-      for (size_t k = 0; k < adouble::degree; k++)
-        for (size_t l = 0; l < adouble::numDir; l++) {
-          tmp.ho_deriv[k][l] =
-              (1.0 / to_double(k + 1)) *
-              factorial_val; // division with k+1 (offset because of zero index
-                             // [0] ) because of distinction between tilde{u_k}
-                             // and u_k
-        }
+      // the general recurrence divides by a
+      if (v >= 0 && v == ADOLC_MATH_NSP::floor(v)) {
+        adouble prod(1.0);
+        const double most = to_double(adouble::degree + 1);
+        for (double i = 0; i < v && i < most; ++i)
+          prod *= a;
+        FOR_J_EQ_0_LT_DEGREE_FOR_I_EQ_0_LT_NUMDIR
+        tmp.HO_DER_I_J = prod.HO_DER_I_J;
+      } else
+        FOR_J_EQ_0_LT_DEGREE_FOR_I_EQ_0_LT_NUMDIR
+      tmp.HO_DER_I_J = makeNaN();
     } else {
       size_t i;
       double sum1 = 0.0, sum2 = 0.0;
-- 
2.43.0


From 8420e54100ba41f8316afbfe4a6f5b86e418cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 45/89] fix: traceless index domain lost by assigning a
 variable to itself

---
 ADOL-C/include/adolc/adtl_indo.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ADOL-C/include/adolc/adtl_indo.h b/ADOL-C/include/adolc/adtl_indo.h
index 14c8699..c48618a 100644
--- a/ADOL-C/include/adolc/adtl_indo.h
+++ b/ADOL-C/include/adolc/adtl_indo.h
@@ -725,6 +725,8 @@ inline adouble &adouble::operator=(const double v) {
 }
 
 inline adouble &adouble::operator=(const adouble &a) {
+  if (this == &a)
+    return *this;
   val = a.val;
   if (!pattern.empty())
     pattern.clear();
-- 
2.43.0


From 828744d60cf864ea2984dc88fc6a3de30799051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:21 +0000
Subject: [PATCH 46/89] fix: reverse bit pattern propagation lost track of the
 Taylors at quotients and powers

---
 ADOL-C/src/fo_rev.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 29e2cd4..6a17406 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1123,6 +1123,9 @@ int int_reverse_safe(
       ASSIGN_A(Aarg1, ADJOINT_BUFFER[arg1])
 
       /* olvo 980922 changed order to allow x=y/x */
+#if defined(_INT_REV_) && !defined(_NTIGHT_)
+      rp_T[res] = tape.get_taylor();
+#endif
 #if !defined(_NTIGHT_) && !defined(_INT_REV_)
       double r_0 = -TRES;
       rp_T[res] = tape.get_taylor();
@@ -1179,7 +1182,9 @@ int int_reverse_safe(
       }
 
 #if !defined(_NTIGHT_)
+#if !defined(_INT_REV_)
       if (arg != res)
+#endif
         rp_T[res] = tape.get_taylor();
 #endif /* !_NTIGHT_ */
     } break;
@@ -1422,7 +1427,9 @@ int int_reverse_safe(
       }
 
 #if !defined(_NTIGHT_)
+#if !defined(_INT_REV_)
       if (res != arg)
+#endif
         rp_T[res] = tape.get_taylor();
 #endif /* !_NTIGHT_ */
     } break;
@@ -2380,6 +2387,8 @@ int int_reverse_safe(
         arg2++;
         arg1++;
       }
+      ASSIGN_A(Ares, ADJOINT_BUFFER[res])
+      FOR_0_LE_l_LT_p ARES_INC = 0;
 #if !defined(_NTIGHT_)
       rp_T[res] = tape.get_taylor();
 #endif /* !_NTIGHT_ */
-- 
2.43.0


From a8047d4ef48f218ccd4de423b916e5b6580dc92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:21 +0000
Subject: [PATCH 47/89] fix: vector operations: adjoints and Taylors of the
 elements, scalar product declared as defined

---
 ADOL-C/include/adolc/adtb_types.h          |  6 +--
 ADOL-C/include/adolc/valuetape/valuetape.h |  2 +-
 ADOL-C/src/adouble.cpp                     |  4 +-
 ADOL-C/src/fo_rev.cpp                      | 43 ++++++++-------
 ADOL-C/src/ho_rev.cpp                      | 63 ++++++++++++----------
 5 files changed, 65 insertions(+), 53 deletions(-)

diff --git a/ADOL-C/include/adolc/adtb_types.h b/ADOL-C/include/adolc/adtb_types.h
index 6459cbc..0960892 100644
--- a/ADOL-C/include/adolc/adtb_types.h
+++ b/ADOL-C/include/adolc/adtb_types.h
@@ -1107,9 +1107,9 @@ ADOLC_API inline adouble atan2(const adouble &a, const adouble &b) {
 void ADOLC_API adolc_vec_copy(adouble *const dest, const adouble *const src,
                               size_t size);
 
-// computes canonical scalarproduct, src and dest must have size "size"
-void ADOLC_API adolc_vec_dot(adouble *const dest, const adouble *const src,
-                             size_t size);
+// computes canonical scalarproduct, vec_a and vec_b must have size "size"
+adouble ADOLC_API adolc_vec_dot(const adouble *const vec_a,
+                                const adouble *const vec_b, size_t size);
 
 // res = a*vec_a + vec_b, vec_a and vec_b must have same size "size"
 void ADOLC_API adolc_vec_axpy(adouble *const res, const adouble &a,
diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index 90af444..889c95c 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -248,7 +248,7 @@ public:
   size_t num_eq_prod() const { return tapeInfos_.num_eq_prod; }
   void num_eq_prod(size_t num) { tapeInfos_.num_eq_prod = num; }
   void increment_num_eq_prod() { ++(tapeInfos_.num_eq_prod); }
-  void add_num_eq_prod(size_t val) { tapeInfos_.numDeps += val; }
+  void add_num_eq_prod(size_t val) { tapeInfos_.num_eq_prod += val; }
 
   void increment_numInds() { ++tapeInfos_.numInds; }
   size_t numInds() const { return tapeInfos_.numInds; }
diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index 210138f..810f25c 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -5573,7 +5573,7 @@ void adolc_vec_copy(adouble *const dest, const adouble *const src,
       tape.increment_numTays_Tape();
 
       if (tape.keepTaylors())
-        tape.write_scaylor(dest[0].value());
+        tape.write_scaylor(tape.get_ad_value(dest[0].loc() + i));
     }
   }
   for (size_t i = 0; i < size; ++i)
@@ -5638,7 +5638,7 @@ void adolc_vec_axpy(adouble *const res, const adouble &a,
       tape.increment_numTays_Tape();
 
       if (tape.keepTaylors())
-        tape.write_scaylor(tape.get_ad_value(vec_a[0].loc() + i));
+        tape.write_scaylor(tape.get_ad_value(res[0].loc() + i));
     }
   }
   for (size_t i = 0; i < size; ++i)
diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 6a17406..a7ecd48 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2344,18 +2344,21 @@ int int_reverse_safe(
       res = tape.get_locint_r();
       size = tape.get_locint_r();
       arg = tape.get_locint_r();
-      for (locint qq = 0; qq < size; qq++) {
+      /* backwards, as the Taylors were written */
+      for (locint qq = size; qq-- > 0;) {
 
         ASSIGN_A(Aarg, ADJOINT_BUFFER[arg + qq])
         ASSIGN_A(Ares, ADJOINT_BUFFER[res + qq])
 
         FOR_0_LE_l_LT_p {
 #if defined(_INT_REV_)
-          AARG_INC |= *Ares;
+          size_t aTmp = *Ares;
           ARES_INC = 0;
+          AARG_INC |= aTmp;
 #else
-          AARG_INC += *Ares;
+          revreal aTmp = *Ares;
           ARES_INC = 0.0;
+          AARG_INC += aTmp;
 #endif
         }
 
@@ -2400,28 +2403,30 @@ int int_reverse_safe(
       arg2 = tape.get_locint_r();
       arg1 = tape.get_locint_r();
       arg = tape.get_locint_r();
-      for (locint qq = 0; qq < size; qq++) {
-        ASSIGN_A(Ares, ADJOINT_BUFFER[res])
+      /* backwards, as the Taylors were written */
+      for (locint qq = size; qq-- > 0;) {
+        ASSIGN_A(Ares, ADJOINT_BUFFER[res + qq])
         ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
-        ASSIGN_A(Aarg2, ADJOINT_BUFFER[arg2])
-        ASSIGN_A(Aarg1, ADJOINT_BUFFER[arg1])
+        ASSIGN_A(Aarg2, ADJOINT_BUFFER[arg2 + qq])
+        ASSIGN_A(Aarg1, ADJOINT_BUFFER[arg1 + qq])
+#if !defined(_NTIGHT_)
+        rp_T[res + qq] = tape.get_taylor();
+#endif /* !_NTIGHT_ */
         FOR_0_LE_l_LT_p {
 #if defined(_INT_REV_)
-          AARG_INC |= *Ares;
-          AARG2_INC |= *Ares;
-          AARG1_INC |= ARES_INC;
+          size_t aTmp = *Ares;
+          ARES_INC = 0;
+          AARG_INC |= aTmp;
+          AARG2_INC |= aTmp;
+          AARG1_INC |= aTmp;
 #else
-          AARG2_INC += *Ares;
-          AARG1_INC += (*Ares) * TARG;
-          AARG_INC += ARES_INC * TARG1;
+          revreal aTmp = *Ares;
+          ARES_INC = 0.0;
+          AARG2_INC += aTmp;
+          AARG1_INC += aTmp * rp_T[arg];
+          AARG_INC += aTmp * rp_T[arg1 + qq];
 #endif
         }
-#if !defined(_NTIGHT_)
-        rp_T[res] = tape.get_taylor();
-#endif /* !_NTIGHT_ */
-        arg2++;
-        arg1++;
-        res++;
       }
       break;
 
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index d13e9e1..d94a9bc 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2457,7 +2457,8 @@ int hov_ti_reverse(
       size = tape.get_locint_r();
       arg = tape.get_locint_r();
 
-      for (locint qq = 0; qq < size; qq++) {
+      /* backwards, as the Taylors were written */
+      for (locint qq = size; qq-- > 0;) {
 
         ASSIGN_A(Aarg, rpp_A[arg + qq])
         ASSIGN_A(Ares, rpp_A[res + qq])
@@ -2511,12 +2512,13 @@ int hov_ti_reverse(
             HOV_INC(Ares, k)
             HOV_INC(Aarg1, k)
             HOV_INC(Aarg2, k)
-            HOS_OV_INC(Targ1, k)
-            HOS_OV_INC(Targ2, k)
-            HOS_OV_INC(Tres, k)
           }
+          HOS_OV_INC(Targ1, k)
+          HOS_OV_INC(Targ2, k)
         }
       }
+      for (int i = 0; i < p * k1; i++)
+        rpp_A[res][i] = 0.0;
       GET_TAYL(res, k, p)
       break;
 
@@ -2526,40 +2528,45 @@ int hov_ti_reverse(
       arg2 = tape.get_locint_r();
       arg1 = tape.get_locint_r();
       arg = tape.get_locint_r();
-      for (locint qq = 0; qq < size; qq++) {
+      /* backwards, as the Taylors were written */
+      for (locint qq = size; qq-- > 0;) {
+        GET_TAYL(res + qq, k, p)
+
         ASSIGN_A(Ares, rpp_A[res + qq])
         ASSIGN_A(Aarg, rpp_A[arg])
         ASSIGN_A(Aarg2, rpp_A[arg2 + qq])
         ASSIGN_A(Aarg1, rpp_A[arg1 + qq])
         Targ = rpp_T[arg];
         Targ1 = rpp_T[arg1 + qq];
-        if (0 == ARES) {
-          HOV_INC(Aarg, k1)
-          HOV_INC(Aarg1, k1)
-          HOV_INC(Aarg2, k1)
-          HOV_INC(Ares, k1)
-        } else {
-          comp = (ARES > 2.0) ? ARES : 2.0;
-          MAXDEC(AARG2, ARES);
-          ARES_INC = 0.0;
-          MAXDEC(AARG, comp);
-          MAXDEC(AARG1, comp);
-          AARG_INC_O;
-          AARG1_INC_O;
-          AARG2_INC_O;
-          copyAndZeroset(k, Ares, rp_Atemp);
-          inconv(k, rp_Atemp, Targ1, Aarg);
-          inconv(k, rp_Atemp, Targ, Aarg1);
-          for (int i = 0; i < k; i++)
-            AARG2_INC += rp_Atemp[i];
+        for (int l = 0; l < p; l++) {
+          if (0 == ARES) {
+            HOV_INC(Aarg, k1)
+            HOV_INC(Aarg1, k1)
+            HOV_INC(Aarg2, k1)
+            HOV_INC(Ares, k1)
+          } else {
+            double aTmp = ARES;
+            comp = (aTmp > 2.0) ? aTmp : 2.0;
+            ARES_INC = 0.0;
+            MAXDEC(AARG2, aTmp);
+            MAXDEC(AARG, comp);
+            MAXDEC(AARG1, comp);
+            AARG_INC_O;
+            AARG1_INC_O;
+            AARG2_INC_O;
+            copyAndZeroset(k, Ares, rp_Atemp);
+            inconv(k, rp_Atemp, Targ1, Aarg);
+            inconv(k, rp_Atemp, Targ, Aarg1);
+            for (int i = 0; i < k; i++)
+              AARG2_INC += rp_Atemp[i];
 
-          HOV_INC(Ares, k)
-          HOV_INC(Aarg, k)
-          HOV_INC(Aarg1, k)
+            HOV_INC(Ares, k)
+            HOV_INC(Aarg, k)
+            HOV_INC(Aarg1, k)
+          }
           HOS_OV_INC(Targ, k)
           HOS_OV_INC(Targ1, k)
         }
-        GET_TAYL(res + qq, k, p)
       }
       break;
 
-- 
2.43.0


From e006dca374612514b75bee0fbcff9a66a0d68096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 48/89] fix: forward bit pattern propagation left rows of the
 pattern without entry unset

---
 ADOL-C/src/sparse/sparsedrivers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/sparse/sparsedrivers.cpp b/ADOL-C/src/sparse/sparsedrivers.cpp
index 20d775f..f1a7d5f 100644
--- a/ADOL-C/src/sparse/sparsedrivers.cpp
+++ b/ADOL-C/src/sparse/sparsedrivers.cpp
@@ -44,7 +44,8 @@ void extract(size_t wordIdx, size_t stripIdx, size_t currentStripWordIdx,
   size_t numNonzeros = std::accumulate(data.indepWordHasNonzero_.begin(),
                                        data.indepWordHasNonzero_.end(), 0UL);
 
-  if (numNonzeros > 0) {
+  // the first strip creates the row, even if it is empty
+  if (numNonzeros > 0 || stripIdx == 0) {
     uint *row = nullptr;
     if (stripIdx == 0) {
       row = new uint[numNonzeros + 1];
-- 
2.43.0


From 4ceffca6ba32cda9cad5b4e3b14e107f53a19cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 49/89] fix: sparse drivers: a failed pattern computation
 leaves nothing to repeat

---
 ADOL-C/include/adolc/sparse/sparsedrivers.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ADOL-C/include/adolc/sparse/sparsedrivers.h b/ADOL-C/include/adolc/sparse/sparsedrivers.h
index aebf718..a23e512 100644
--- a/ADOL-C/include/adolc/sparse/sparsedrivers.h
+++ b/ADOL-C/include/adolc/sparse/sparsedrivers.h
@@ -420,6 +420,8 @@ int bitVectorPropagation(short tapeId, int depen, int indep,
   checkBVPInput<CFM>(basepoint);
   BvpData<BPPD> data{depen, indep};
   prepareADCalls<BPPD, CFM>(tapeId, basepoint, data);
+  if (data.rc_ < 0)
+    return data.rc_;
   for (int stripIdx = 0; stripIdx < data.numStripmineBatches_; stripIdx++) {
     prepareSeedMatrix(stripIdx, data);
     ADCalls<BPPD, CFM>(tapeId, basepoint, data);
@@ -684,6 +686,8 @@ int buildJacPatternAndSeed(short tag, int depen, int indep,
                            const double *basepoint) {
 
   ValueTape &tape = findTape(tag);
+  // nothing to repeat unless the pattern is found
+  tape.sJInfos().seedRows_ = 0;
   tape.sJInfos().setJP(std::vector<uint *>(depen));
   std::span<uint *> JPSpan = tape.sJInfos().getJP();
   int ret_val = jac_pat<SM, CFM, BPPD>(tag, depen, indep, basepoint, JPSpan);
@@ -728,6 +732,8 @@ template <PiecewiseLinear>
 int buildJacPatternAndSeed(short tag, int depen, int indep, int numSwitches,
                            const double *basepoint) {
   auto &tape = findTape(tag);
+  // nothing to repeat unless the pattern is found
+  tape.sJInfos().seedRows_ = 0;
   tape.sJInfos().setJP(std::vector<uint *>(depen + numSwitches));
   std::span<uint *> JPSpan{tape.sJInfos().getJP()};
 
@@ -1230,6 +1236,9 @@ int buildHessPatternAndSeed(short tag, int indep, const double *basepoint,
   ValueTape &tape = findTape(tag);
   int ret_val = -1;
   // Generate sparsity pattern, determine nnz, allocate memory
+  // nothing to repeat unless the pattern is found
+  myfree2(tape.sHInfos().Upp_);
+  tape.sHInfos().Upp_ = nullptr;
   tape.sHInfos().setHP(indep, std::vector<uint *>(indep));
   std::span<uint *> HPSpan = tape.sHInfos().HP_;
   // generate sparsity pattern
-- 
2.43.0


From e3f7964e4c2d515268cedc44d6584940a0df2d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 50/89] fix: index domain modes: conditional assignments and
 minima merge or select both arguments

---
 ADOL-C/src/uni5_for.cpp | 49 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 4a069aa..3e02130 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3798,7 +3798,6 @@ int hov_forward(
       fod[opind].left = &fod[arg_index[arg1]];
       fod[opind].right = &fod[arg_index[arg2]];
       arg_index[res] = opind++;
-      arg_index[res] = opind++;
 #endif
 #endif
 #else
@@ -4148,6 +4147,9 @@ int hov_forward(
       }
 
 #else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[arg1]];
+      fod[opind].right = &fod[arg_index[arg2]];
       arg_index[res] = opind++;
 #endif
 #endif
@@ -4255,6 +4257,9 @@ int hov_forward(
       }
 
 #else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[arg1]];
+      fod[opind].right = &fod[arg_index[arg2]];
       arg_index[res] = opind++;
 #endif
 #endif
@@ -4324,14 +4329,32 @@ int hov_forward(
 #if defined(_INDO_)
 #if defined(_INDOPRO_)
 #ifdef _TIGHT_
-      if (dp_T0[arg] > 0)
+      if (dp_T0[arg] > 0) {
+        if (coval <= 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
         copy_index_domain(res, arg1, ind_dom);
+      } else if (dp_T0[arg] == 0)
+        MINDEC(ret_c, 0);
 #else
       merge_2_index_domains(res, arg1, ind_dom);
 #endif
 #endif
 #if defined(_NONLIND_)
-      arg_index[res] = arg_index[arg1];
+#ifdef _TIGHT_
+      if (dp_T0[arg] > 0) {
+        if (coval <= 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
+        arg_index[res] = arg_index[arg1];
+      } else if (dp_T0[arg] == 0)
+        MINDEC(ret_c, 0);
+#else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[res]];
+      fod[opind].right = &fod[arg_index[arg1]];
+      arg_index[res] = opind++;
+#endif
 #endif
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -4385,14 +4408,30 @@ int hov_forward(
 #if defined(_INDO_)
 #if defined(_INDOPRO_)
 #ifdef _TIGHT_
-      if (dp_T0[arg] >= 0)
+      if (dp_T0[arg] >= 0) {
+        if (coval < 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
         copy_index_domain(res, arg1, ind_dom);
+      }
 #else
       merge_2_index_domains(res, arg1, ind_dom);
 #endif
 #endif
 #if defined(_NONLIND_)
-      arg_index[res] = arg_index[arg1];
+#ifdef _TIGHT_
+      if (dp_T0[arg] >= 0) {
+        if (coval < 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
+        arg_index[res] = arg_index[arg1];
+      }
+#else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[res]];
+      fod[opind].right = &fod[arg_index[arg1]];
+      arg_index[res] = opind++;
+#endif
 #endif
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
-- 
2.43.0


From d09d7d85b7621a23e97d374e53db4a05599ffaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 51/89] fix: bit pattern propagation of conditional assignments
 read the condition twice or lost the old value

---
 ADOL-C/src/fo_rev.cpp   | 12 ++++--------
 ADOL-C/src/uni5_for.cpp | 18 +++++++-----------
 2 files changed, 11 insertions(+), 19 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index a7ecd48..3830cb3 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1934,11 +1934,9 @@ int int_reverse_safe(
       } else if (TARG == 0.0) /* we are at the tie */
         FOR_0_LE_l_LT_p if (ARES_INC != 0) MINDEC(ret_c, 0);
 #else
+      /* res keeps its value if the condition does not hold */
       if (res != arg1)
-        FOR_0_LE_l_LT_p {
-          AARG1 |= *Ares;
-          ARES_INC = 0;
-        }
+        FOR_0_LE_l_LT_p AARG1_INC |= ARES_INC;
 #endif /* !_NTIGHT_ */
       break;
 
@@ -1975,11 +1973,9 @@ int int_reverse_safe(
               MINDEC(ret_c, 2);
       }
 #else
+      /* res keeps its value if the condition does not hold */
       if (res != arg1)
-        FOR_0_LE_l_LT_p {
-          AARG1 |= *Ares;
-          ARES_INC = 0;
-        }
+        FOR_0_LE_l_LT_p AARG1_INC |= ARES_INC;
 #endif /* !_NTIGHT_ */
       break;
 
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 3e02130..2ae05ea 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3839,7 +3839,7 @@ int hov_forward(
       dp_T0[res] = MIN_ADOLC(dp_T0[arg1], dp_T0[arg2]);
 #endif /* _TIGHT_ */
 #ifdef _NTIGHT_
-      TRES_INC = TARG1_INC | TARG2_INC;
+      FOR_0_LE_l_LT_p TRES_INC = TARG1_INC | TARG2_INC;
 #endif /* _NTIGHT_ */
 #else
       Tqo = nullptr;
@@ -4162,8 +4162,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
       else
@@ -4272,8 +4270,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
       else
@@ -4364,11 +4360,11 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
-#endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
+#else
+      FOR_0_LE_l_LT_pk TRES_INC |= TARG1_INC;
+#endif /* _TIGHT_ */
 
 #ifdef _TIGHT_
       if (dp_T0[arg] > 0) {
@@ -4441,11 +4437,11 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
-#endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
+#else
+      FOR_0_LE_l_LT_pk TRES_INC |= TARG1_INC;
+#endif /* _TIGHT_ */
 
 #ifdef _TIGHT_
       if (dp_T0[arg] >= 0) {
-- 
2.43.0


From 210120d735872236d98364da5912effcbe2f42a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 52/89] fix: index domains of products whose result is one of
 the arguments

---
 ADOL-C/src/uni5_for.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 2ae05ea..4ee9330 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5144,8 +5144,12 @@ int hov_forward(
         IF_KEEP_WRITE_TAYLOR(res + qq, keep, k, p);
 #if defined(_INDO_)
 #if defined(_INDOPRO_)
-        combine_2_index_domains(res + qq, arg, arg1 + qq, ind_dom);
-        merge_2_index_domains(res + qq, arg2 + qq, ind_dom);
+        if (res == arg2)
+          merge_3_index_domains(res + qq, arg, arg1 + qq, ind_dom);
+        else {
+          combine_2_index_domains(res + qq, arg, arg1 + qq, ind_dom);
+          merge_2_index_domains(res + qq, arg2 + qq, ind_dom);
+        }
 #endif
 #if defined(_NONLIND_)
         // operation: v = u*w + y
@@ -6075,6 +6079,10 @@ void merge_2_index_domains(size_t res, size_t arg, uint **ind_dom) {
 void combine_2_index_domains(size_t res, size_t arg1, size_t arg2,
                              uint **ind_dom) {
 
+  if (res == arg2) {
+    merge_2_index_domains(res, arg1, ind_dom);
+    return;
+  }
   if (res != arg1)
     copy_index_domain(res, arg1, ind_dom);
 
-- 
2.43.0


From 24645aaf4a7ee23233e15d2f7cae68c5a2146b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:16 +0000
Subject: [PATCH 53/89] fix: C interface: freeing a variable of another tape
 switched the current tape

---
 ADOL-C/c_interface/ADOLC_TB_interface.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/c_interface/ADOLC_TB_interface.cpp b/ADOL-C/c_interface/ADOLC_TB_interface.cpp
index cdad104..45d92ce 100644
--- a/ADOL-C/c_interface/ADOLC_TB_interface.cpp
+++ b/ADOL-C/c_interface/ADOLC_TB_interface.cpp
@@ -42,8 +42,13 @@ void adolc_tb_free_on_tape(const short tape_id, const tape_loc v) {
   }
   assert(findTapePtr_(tape_id) != nullptr &&
          "adolc_tb_free_on_tape: tape_id does not exist");
+  // the caller's tape stays the current one
+  ValueTape *const current = currentTapePtr();
   setCurrentTape(tape_id);
-  tape_location<adouble> owning_loc(v.loc, tape_location<adouble>::OWNING);
+  {
+    tape_location<adouble> owning_loc(v.loc, tape_location<adouble>::OWNING);
+  }
+  setCurrentTape(current);
 }
 
 double adolc_tb_value(const tape_loc v) { return borrow(v).value(); }
-- 
2.43.0


From 9146ae8993095501980d3fe22b1f1ecfd4107b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:16 +0000
Subject: [PATCH 54/89] fix: C interface: traceless header usable from C

---
 ADOL-C/c_interface/ADOLC_TL_interface.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ADOL-C/c_interface/ADOLC_TL_interface.h b/ADOL-C/c_interface/ADOLC_TL_interface.h
index d758091..8788ddc 100644
--- a/ADOL-C/c_interface/ADOLC_TL_interface.h
+++ b/ADOL-C/c_interface/ADOLC_TL_interface.h
@@ -1,6 +1,7 @@
 #ifndef ADOLC_TL_INTERFACE_H
 #define ADOLC_TL_INTERFACE_H
 
+#include <stdbool.h>
 #include <stddef.h>
 
 #ifdef __cplusplus
-- 
2.43.0


From 5a391d311532f27c7694875f4a3574666fb1313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:16 +0000
Subject: [PATCH 55/89] fix: C interface: short matrices were released
 incompletely

---
 ADOL-C/c_interface/array_handler.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/c_interface/array_handler.cpp b/ADOL-C/c_interface/array_handler.cpp
index 597b19b..fe9b942 100644
--- a/ADOL-C/c_interface/array_handler.cpp
+++ b/ADOL-C/c_interface/array_handler.cpp
@@ -1,4 +1,5 @@
 #include "array_handler.h"
+#include <cstddef>
 
 /*
 Setter and getter for vectors, matrizes and tensors.
@@ -24,11 +25,17 @@ void setindex_tens(double ***A, const double val, const int dim, const int row,
 }
 
 short **alloc_short_mat(const int rows, const int cols) {
-  short **s = new short *[rows];
-  for (int i = 0; i < rows; i++) {
-    s[i] = new short[cols];
+  // the entries follow the row pointers in rows of one block
+  short **s = new short *[rows + 1];
+  s[0] = new short[static_cast<size_t>(rows) * cols];
+  for (int i = 1; i <= rows; i++) {
+    s[i] = s[i - 1] + cols;
   }
   return s;
 }
-void free_short_mat(short **s) { delete s; }
+void free_short_mat(short **s) {
+  if (s != nullptr)
+    delete[] s[0];
+  delete[] s;
+}
 }
\ No newline at end of file
-- 
2.43.0


From b817bc306a834ffe6f723f7cbe4e65499281a470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:05 +0000
Subject: [PATCH 56/89] fix: Fortran ODE drivers dropped coefficients and freed
 the wrong blocks

---
 ADOL-C/src/drivers/odedriversf.cpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/ADOL-C/src/drivers/odedriversf.cpp b/ADOL-C/src/drivers/odedriversf.cpp
index da26887..04fc429 100644
--- a/ADOL-C/src/drivers/odedriversf.cpp
+++ b/ADOL-C/src/drivers/odedriversf.cpp
@@ -39,15 +39,12 @@ fint forodec_(fint *ftag,    /* tape identifier */
   short tag = static_cast<short>(*ftag);
   int n = static_cast<int>(*fn), dol = static_cast<int>(*fdol),
       deg = static_cast<int>(*fdeg);
-  int i;
   double tau = *ftau;
   double **Y = myalloc2(n, deg + 1);
-  for (i = 0; i < n; i++)
-    *Y[i] = fy[i];
+  spread2(n, deg + 1, fy, Y);
   rc = forodec(tag, n, tau, dol, deg, Y);
   pack2(n, deg + 1, Y, fy);
-  free((char *)*Y);
-  free((char *)Y);
+  myfree2(Y);
   return rc;
 }
 
@@ -63,17 +60,13 @@ fint accodec_(fint *fn,      /* space dimension */
   int rc = 1;
   int n = static_cast<int>(*fn), deg = static_cast<int>(*fdeg);
   double tau = *ftau;
-  double ***A = myalloc3(n, n, deg);
-  double ***B = myalloc3(n, n, deg);
-  spread3(n, n, deg, fa, A);
+  double ***A = myalloc3(n, n, deg + 1);
+  double ***B = myalloc3(n, n, deg + 1);
+  spread3(n, n, deg + 1, fa, A);
   accodec(n, tau, deg, A, B, 0);
-  pack3(n, n, deg, B, fb);
-  free((char *)**A);
-  free((char *)*A);
-  free((char *)A);
-  free((char *)**B);
-  free((char *)*B);
-  free((char *)B);
+  pack3(n, n, deg + 1, B, fb);
+  myfree3(A);
+  myfree3(B);
   return rc;
 }
 
-- 
2.43.0


From feef704bd07b8fa19e1b58da55e0c281ba58b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:05 +0000
Subject: [PATCH 57/89] fix: tensor_address mis-sorted some multi-indices and
 tensor_value cleared its argument

---
 ADOL-C/src/drivers/taylor.cpp | 51 +++++------------------------------
 1 file changed, 7 insertions(+), 44 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 8f95566..d1b84df 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -275,37 +275,22 @@ void convert(int p, int d, int *im, int *multi) {
 
 /*--------------------------------------------------------------------------*/
 size_t tensor_address(int d, int *multi) {
-  int i, j, max, ind;
+  int i, j, k;
   size_t add = 0;
   int *im = (int *)malloc(d * sizeof(int));
-  int *mymulti = (int *)malloc(d * sizeof(int));
 
-  max = 0;
-  ind = d - 1;
+  /* sort the indices in ascending order */
   for (i = 0; i < d; i++) {
-    mymulti[i] = multi[i];
-    if (mymulti[i] > max)
-      max = mymulti[i];
-    im[i] = 0;
-  }
-
-  for (i = 0; i < d; i++) {
-    if (mymulti[i] == max) {
-      im[ind] = mymulti[i];
-      mymulti[i] = 0;
-      max = 0;
-      ind -= 1;
-      for (j = 0; j < d; j++)
-        if (mymulti[j] > max)
-          max = mymulti[j];
-    }
+    k = multi[i];
+    for (j = i; j > 0 && im[j - 1] > k; j--)
+      im[j] = im[j - 1];
+    im[j] = k;
   }
 
   for (i = 0; i < d; i++) {
     add += binomi(im[i] + i, i + 1);
   }
   free((char *)im);
-  free((char *)mymulti);
 
   return add;
 }
@@ -844,31 +829,9 @@ int tensor_eval(short tag, int m, int n, int d, int p, double *x,
 
 /****************************************************************************/
 void tensor_value(int d, int m, double *y, double **tensor, int *multi) {
-  int *im = (int *)malloc(d * sizeof(int));
-
-  int max = 0;
-  int ind = d - 1;
-  for (int i = 0; i < d; i++) {
-    if (multi[i] > max)
-      max = multi[i];
-    im[i] = 0;
-  }
-  for (int i = 0; i < d; i++) {
-    if (multi[i] == max) /* olvo 980728 == instead of = */
-    {
-      im[ind] = multi[i];
-      multi[i] = 0;
-      max = 0;
-      ind -= 1;
-      for (int j = 0; j < d; j++)
-        if (multi[j] > max)
-          max = multi[j];
-    }
-  }
-  size_t add = tensor_address(d, im);
+  size_t add = tensor_address(d, multi);
   for (int i = 0; i < m; i++)
     y[i] = tensor[i][add];
-  free((char *)im);
 }
 
 END_C_DECLS
-- 
2.43.0


From c920b8115b804c0e842f1f83cf953e6ac2dfd55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:04 +0000
Subject: [PATCH 58/89] fix: inverse_tensor_eval kept the old number of
 multi-indices after a change of degree

---
 ADOL-C/src/drivers/taylor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index d1b84df..c49baf6 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -630,8 +630,9 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
     dim = binomi(p + d - 1, d);
     if ((d != dold) || (p != pold)) {
       if (pold) { /* olvo 980728 */
-        dim = binomi(pold + dold - 1, dold);
-        freecoefflist(dim, coeff_list);
+        // set to old dim to free
+        auto oldDim = binomi(pold + dold - 1, dold);
+        freecoefflist(oldDim, coeff_list);
         free((char *)coeff_list);
       }
       coeff_list = (struct item *)malloc(sizeof(struct item) * dim);
-- 
2.43.0


From adad44deedb272a991f17f761371d30ebda55fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:37 +0000
Subject: [PATCH 59/89] fix: jac_solv reused a factorization that was
 overwritten, failed or belonged to another trace

---
 ADOL-C/src/drivers/taylor.cpp      | 10 ++++++++++
 ADOL-C/src/valuetape/valuetape.cpp |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index c49baf6..aca01dc 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -447,11 +447,18 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
     }
   switch (mode) {
   case 0:
+    // the Jacobian replaces a factorization computed before
+    tape.jacSolv_modeold(0);
     MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
+    if (rc < 0)
+      break;
     MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
     break;
   case 1:
+    tape.jacSolv_modeold(0);
     MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
+    if (rc < 0)
+      break;
     MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
     if (LUFactorization(tape.jacSolv_J(), n, tape.jacSolv_ri(),
                         tape.jacSolv_ci()) < 0) {
@@ -462,7 +469,10 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
     break;
   case 2:
     if ((tape.jacSolv_modeold() < 1) || (newX == 1)) {
+      tape.jacSolv_modeold(0);
       MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
+      if (rc < 0)
+        break;
       MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
       if (LUFactorization(tape.jacSolv_J(), n, tape.jacSolv_ri(),
                           tape.jacSolv_ci()) < 0) {
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 3b924de..a981b83 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -82,6 +82,8 @@ int ValueTape::initNewTape() {
   tapestats(TapeInfos::LOC_BUFFER_SIZE, locationBufferSize());
   tapestats(TapeInfos::VAL_BUFFER_SIZE, valueBufferSize());
   tapestats(TapeInfos::TAY_BUFFER_SIZE, taylorBufferSize());
+  // jac_solv must not reuse a factorization of the previous trace
+  jacSolv_modeold(0);
   // nothing of the new trace is on disk
   tapestats(TapeInfos::OP_FILE_ACCESS, 0);
   tapestats(TapeInfos::LOC_FILE_ACCESS, 0);
@@ -579,6 +581,9 @@ void ValueTape::set_param_vec(short tag, size_t numparam,
   for (size_t i = 0; i < tapestats(TapeInfos::NUM_PARAM); ++i)
     paramstore_view[i] = paramvec[i];
 
+  // jac_solv must not reuse a factorization for the previous parameters
+  jacSolv_modeold(0);
+
   finish_tay_file();
 }
 
-- 
2.43.0


From 85dcbcfb0f4df4d242c3f9ccfa6b11afb2b97efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:59 +0000
Subject: [PATCH 60/89] fix: Lie derivatives of degree 0 and 1 and of high
 degree of covector fields and brackets

---
 ADOL-C/src/lie/adolc_lie_c.cpp | 75 +++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 37 deletions(-)

diff --git a/ADOL-C/src/lie/adolc_lie_c.cpp b/ADOL-C/src/lie/adolc_lie_c.cpp
index 42e81ba..c78b041 100644
--- a/ADOL-C/src/lie/adolc_lie_c.cpp
+++ b/ADOL-C/src/lie/adolc_lie_c.cpp
@@ -62,7 +62,7 @@ void acccov(int n, int d, double ***B, double **C, double **D) {
   int i, k, l, ip, kp;
 
   /* factorial     */
-  int Fak = 1;
+  double Fak = 1.0;
 
   /* D_k:=Fak*C_k (1. summation step)   */
   for (k = 0; k <= d; k++) {
@@ -139,7 +139,7 @@ void accbrac(int n, int d, double ***Bs, double **b, double **result) {
   int i, j, k, l, jp, kp;
 
   /* factorial      */
-  int Fak = 1;
+  double Fak = 1.0;
 
   /* formula 3.58  */
   for (k = 0; k <= d; k++) {
@@ -201,7 +201,10 @@ int lie_scalarcv(short Tape_F, short Tape_H, short n, short m, double *x0,
       X[i][k] = X[i][k + 1];
   }
 
-  hos_forward(Tape_H, m, n, d, 0, x, X, y, Y);
+  if (d > 0)
+    hos_forward(Tape_H, m, n, d, 0, x, X, y, Y);
+  else
+    zos_forward(Tape_H, m, n, 0, x, y);
 
   /*  postprocess output of hos_forward  */
   for (i = 0; i < m; i++) {
@@ -272,8 +275,6 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
 
   double *x = myalloc1(n);
   double *y = myalloc1(m);
-  double *xp = myalloc1(n);
-  double *yp = myalloc1(m);
 
   static int depax_m, depax_n;
   static double **In;
@@ -298,25 +299,32 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
     Im = myallocI2(depax_m = m);
   }
 
-  hov_reverse(Tape_F, n, n, d - 1, n, In, A,
-              0);                  /* explanation in interfaces.cpp  */
-  accodec(n, 1.0, d - 1, A, B, 0); /* explanation in odedrivers.cpp    */
+  if (d > 0) {
+    hov_reverse(Tape_F, n, n, d - 1, n, In, A,
+                0);                  /* explanation in interfaces.cpp  */
+    accodec(n, 1.0, d - 1, A, B, 0); /* explanation in odedrivers.cpp    */
+  }
 
   /* prepare for input   */
   for (i = 0; i < n; i++) {
     x[i] = X[i][0];
-    if (d == 1) {
-      xp[i] = X[i][1];
-    } else {
-      for (k = 0; k < d; k++) {
-        X[i][k] = X[i][k + 1];
-      }
+    for (k = 0; k < d; k++) {
+      X[i][k] = X[i][k + 1];
     }
   }
 
-  hos_forward(Tape_H, m, n, d, d + 1, x, X, y, Y);
-
-  hov_reverse(Tape_H, m, n, d, m, Im, Pc, 0);
+  if (d > 0) {
+    hos_forward(Tape_H, m, n, d, d + 1, x, X, y, Y);
+    hov_reverse(Tape_H, m, n, d, m, Im, Pc, 0);
+  } else {
+    double **J = myalloc2(m, n);
+    zos_forward(Tape_H, m, n, 1, x, y);
+    fov_reverse(Tape_H, m, n, m, Im, J);
+    for (l = 0; l < m; l++)
+      for (i = 0; i < n; i++)
+        Pc[l][i][0] = J[l][i];
+    myfree2(J);
+  }
   accodeout(m, n, d, B, Pc, D);
 
   for (l = 0; l < m; l++) {
@@ -338,8 +346,6 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
 
   myfree1(x);
   myfree1(y);
-  myfree1(xp);
-  myfree1(yp);
 
   return rc;
 }
@@ -394,8 +400,6 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
 
   double *x = myalloc1(n);
   double *y = myalloc1(m);
-  double *xp = myalloc1(n);
-  double *yp = myalloc1(m);
 
   int i = 0, k = 0;
 
@@ -419,32 +423,31 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
     Im = myallocI2(depax_m = m);
   }
 
-  hov_reverse(Tape_F, n, n, d - 1, n, In, A,
-              0); /* explanation in interfaces.cpp  */
+  if (d > 0)
+    hov_reverse(Tape_F, n, n, d - 1, n, In, A,
+                0); /* explanation in interfaces.cpp  */
 
   /* prepare for input */
   for (i = 0; i < n; i++) {
     x[i] = X[i][0];
-    if (d == 1)
-      xp[i] = X[i][1];
-    else
-      for (k = 0; k < d; k++)
-        X[i][k] = X[i][k + 1];
+    for (k = 0; k < d; k++)
+      X[i][k] = X[i][k + 1];
   }
 
-  hos_forward(Tape_W, m, n, d, d + 1, x, X, y, Y);
+  if (d > 0)
+    hos_forward(Tape_W, m, n, d, d + 1, x, X, y, Y);
+  else
+    zos_forward(Tape_W, m, n, 0, x, y);
 
   /* postprocess output of hos_forward  */
   for (i = 0; i < m; i++) {
-    if (d == 1)
-      Y[i][1] = yp[i];
-    else
-      for (k = d; k > 0; k--)
-        Y[i][k] = Y[i][k - 1];
+    for (k = d; k > 0; k--)
+      Y[i][k] = Y[i][k - 1];
     Y[i][0] = y[i];
   }
 
-  accodec(n, 1.0, d - 1, A, B, 0); /*  explanation in odedrivers.cpp */
+  if (d > 0)
+    accodec(n, 1.0, d - 1, A, B, 0); /*  explanation in odedrivers.cpp */
   acccov(n, d, B, Y, result);
 
   myfree2(X);
@@ -454,8 +457,6 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
 
   myfree1(x);
   myfree1(y);
-  myfree1(xp);
-  myfree1(yp);
 
   return -1;
 }
-- 
2.43.0


From 5340592299ddd575a0bf6cfed0f4d0eebe901ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:59 +0000
Subject: [PATCH 61/89] fix: derivatives of integer powers at zero

---
 ADOL-C/src/fo_rev.cpp   |  2 +-
 ADOL-C/src/ho_rev.cpp   | 31 +++++++++++---------------
 ADOL-C/src/uni5_for.cpp | 49 ++++++++++++-----------------------------
 3 files changed, 28 insertions(+), 54 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 3830cb3..8602da3 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1409,7 +1409,7 @@ int int_reverse_safe(
       if (arg == res)
         rp_T[arg] = tape.get_taylor();
       if (TARG == 0.0)
-        r0 = 0.0;
+        r0 = coval == 1.0 ? 1.0 : 0.0;
       else
         r0 *= coval / TARG; // r0 = r0 * n / x
 #endif                      /* !_NTIGHT_ */
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index d94a9bc..035b6b7 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1516,25 +1516,20 @@ int hov_ti_reverse(
                   }
                 }
               } else {
-                if (coval == 1) {
-                  for (int i = 0; i < k; i++) { /* ! no temporary */
-                    Aarg[i] += Ares[i];
-                    Ares[i] = 0.0;
+                /* coval is an int >= 1 */
+                /* the following is not efficient but at least it works */
+                /* it computes n * x^(n-1) as n * x* ... *x */
+                rp_Ttemp[0] = coval;
+                for (int i = 1; i < k; i++)
+                  rp_Ttemp[i] = 0.0;
+                for (int ii = 2; ii <= coval && ii <= k + 1; ii++)
+                  for (int i = k - 1; i >= 0; i--) {
+                    double y = 0.0;
+                    for (int j = 0; j <= i; j++)
+                      y += rp_Ttemp[j] * Targ[i - j];
+                    rp_Ttemp[i] = y;
                   }
-                } else {
-                  /* coval is an int > 1 */
-                  /* the following is not efficient but at least it works */
-                  /* it reformulates x^n into x* ... *x n times */
-
-                  copyAndZeroset(k, Ares, rp_Atemp);
-                  inconv(k, rp_Atemp, Targ, Aarg);
-                  inconv(k, rp_Atemp, Targ, Aarg);
-                  if (coval == 3) {
-                    conv(k, Aarg, Targ, rp_Atemp);
-                    for (int i = 0; i < k; i++)
-                      Aarg[i] = 2.0 * rp_Atemp[i];
-                  }
-                }
+                inconv0(k, Ares, rp_Ttemp, Aarg);
               }
             }
           }
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 4ee9330..95b3aba 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3422,7 +3422,7 @@ int hov_forward(
           FOR_0_LE_l_LT_pk TRES_INC = tape.make_nan();
         else {
           /* coval not a whole number */
-          if (coval - floor(coval != 0.0) != 0) {
+          if (coval - floor(coval) != 0) {
             FOR_0_LE_l_LT_p {
               FOR_0_LE_i_LT_k {
                 if (coval - i > 1)
@@ -3441,44 +3441,23 @@ int hov_forward(
             /* the following is not efficient but at least it works */
             /* it reformulates x^n into x* ... *x n times */
             {
-              INC_pk_1(Targ) INC_pk_1(Tres)
-
-                  FOR_p_GT_l_GE_0 {
-                FOR_k_GT_i_GE_0 {
-                  *Tres = 0;
-                  DEC_TRES_FO
 #if defined(_HIGHER_ORDER_)
-                  if (i == k - 1) {
-                    zOP = dp_z + k - 1;
-                    for (int j = k - 1; j >= 0; j--) {
-                      (*zOP--) = (*Targ--);
-                    }
-                  }
-                  for (int j = 0; j < i; j++) {
-                    *Tres += dp_z[j] * dp_z[i - j - 1];
-                  }
-                  Tres--;
-#endif /* _HIGHER_ORDER_ */
-                }
-              }
-              for (int ii = 3; ii <= coval; ii++) {
-                ASSIGN_T(Tres, TAYLOR_BUFFER[res])
-                ASSIGN_T(Targ, TAYLOR_BUFFER[arg])
-                INC_pk_1(Targ) INC_pk_1(Tres)
-
-                    FOR_p_GT_l_GE_0 {
-                  FOR_k_GT_i_GE_0 {
-                    *Tres = 0;
-                    DEC_TRES_FO
-#if defined(_HIGHER_ORDER_)
-                    TresOP = Tres - i;
+              FOR_0_LE_l_LT_p {
+                for (int i = 0; i < k; i++)
+                  Tres[i] = dp_z[i] = Targ[i];
+                for (int ii = 2; ii <= coval && ii <= k + 1; ii++)
+                  for (int i = k - 1; i >= 0; i--) {
+                    double y = 0;
                     for (int j = 0; j < i; j++)
-                      *Tres += TresOP[j] * dp_z[i - j - 1];
-                    Tres--;
-#endif /* _HIGHER_ORDER_ */
+                      y += Tres[j] * dp_z[i - j - 1];
+                    Tres[i] = y;
                   }
-                }
+                Tres += k;
+                Targ += k;
               }
+#else
+              FOR_0_LE_l_LT_pk TRES_INC = 0;
+#endif /* _HIGHER_ORDER_ */
             }
           }
         }
-- 
2.43.0


From 0c5762ae49ac975178e97212355998b6534bc2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:59 +0000
Subject: [PATCH 62/89] fix: derivatives of atan2 where one argument is zero

---
 ADOL-C/include/adolc/adtb_types.h | 13 +++++++++----
 ADOL-C/include/adolc/adtl.h       |  4 ++--
 ADOL-C/include/adolc/adtl_hov.h   |  4 ++--
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/include/adolc/adtb_types.h b/ADOL-C/include/adolc/adtb_types.h
index 0960892..0f505fe 100644
--- a/ADOL-C/include/adolc/adtb_types.h
+++ b/ADOL-C/include/adolc/adtb_types.h
@@ -1092,12 +1092,17 @@ ADOLC_API inline adouble pow(const adouble &a, const adouble &b) {
 /*---------------------------------------------------------------*/
 /* atan(x, y) */
 ADOLC_API inline adouble atan2(const adouble &a, const adouble &b) {
-  adouble a1, a2, ret, sy;
+  adouble a1, a2, ret, sy, num, den;
   const double pihalf = ADOLC_MATH_NSP::asin(1.0);
+  // only the quotient of the smaller by the larger argument is formed
+  const adouble bigger = fabs(b) - fabs(a);
+  condassign(num, bigger, a, b);
+  condassign(den, bigger, b, a);
+  const adouble q = atan(num / den);
   condassign(sy, a, adouble{1.0}, adouble{-1.0});
-  condassign(a1, b, atan(a / b), atan(a / b) + sy * 2 * pihalf);
-  condassign(a2, fabs(a), sy * pihalf - atan(b / a), adouble{0.0});
-  condassign(ret, fabs(b) - fabs(a), a1, a2);
+  condassign(a1, b, q, q + sy * 2 * pihalf);
+  condassign(a2, fabs(a), sy * pihalf - q, adouble{0.0});
+  condassign(ret, bigger, a1, a2);
   return ret;
 }
 
diff --git a/ADOL-C/include/adolc/adtl.h b/ADOL-C/include/adolc/adtl.h
index 45ac5ed..08dddea 100644
--- a/ADOL-C/include/adolc/adtl.h
+++ b/ADOL-C/include/adolc/adtl.h
@@ -572,11 +572,11 @@ ADOLC_API inline adouble atan2(const adouble &a, const adouble &b) {
   tmp.PRIMAL_VALUE = ADOLC_MATH_NSP::atan2(a.PRIMAL_VALUE, b.PRIMAL_VALUE);
   double tmp2 = a.PRIMAL_VALUE * a.PRIMAL_VALUE;
   double tmp3 = b.PRIMAL_VALUE * b.PRIMAL_VALUE;
-  double tmp4 = tmp3 / (tmp2 + tmp3);
+  double tmp4 = tmp2 + tmp3;
   if (tmp4 != 0)
     FOR_I_EQ_1_LTEQ_NUMDIR
   tmp.ADVAL_I =
-      (a.ADVAL_I * b.PRIMAL_VALUE - a.PRIMAL_VALUE * b.ADVAL_I) / tmp3 * tmp4;
+      (a.ADVAL_I * b.PRIMAL_VALUE - a.PRIMAL_VALUE * b.ADVAL_I) / tmp4;
   else FOR_I_EQ_1_LTEQ_NUMDIR tmp.ADVAL_I = 0.0;
   return tmp;
 }
diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 6940c5e..bc1f3b9 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1133,10 +1133,10 @@ inline adouble atan2(const adouble &a, const adouble &b) {
   if (likely(adouble::_do_adval() && adouble::_do_val())) {
     double tmp2 = a.val * a.val;
     double tmp3 = b.val * b.val;
-    double tmp4 = tmp3 / (tmp2 + tmp3);
+    double tmp4 = tmp2 + tmp3;
     if (tmp4 != 0)
       FOR_I_EQ_0_LT_NUMDIR
-    tmp.ADVAL_I = (a.ADVAL_I * b.val - a.val * b.ADVAL_I) / tmp3 * tmp4;
+    tmp.ADVAL_I = (a.ADVAL_I * b.val - a.val * b.ADVAL_I) / tmp4;
     else FOR_I_EQ_0_LT_NUMDIR tmp.ADVAL_I = 0.0;
   }
   if (do_hoval()) // ADTL_HOV
-- 
2.43.0


From 1995c5f12483df686e070cd7c065067a484f9249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:45 +0000
Subject: [PATCH 63/89] fix: advance the switch counter in the signature driven
 piecewise linear sweeps

---
 ADOL-C/src/uni5_for.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 95b3aba..c407ca4 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3986,7 +3986,7 @@ int hov_forward(
 #if !defined(_NTIGHT_)
       dp_T0[res] = fabs(dp_T0[arg]);
 #endif /* !_NTIGHT_ */
-#if defined(_ABS_NORM_) || defined(_ABS_NORN_SIG_)
+#if defined(_ABS_NORM_) || defined(_ABS_NORM_SIG_)
       ++switchnum;
 #endif
       break;
-- 
2.43.0


From f322d345936b3aff7fc6f1c4d1d27ea369b2d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:45 +0000
Subject: [PATCH 64/89] fix: keep the adjoint of an absolute value in
 fos_pl_sig_reverse

---
 ADOL-C/src/fo_rev.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 8602da3..aacb93f 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1646,8 +1646,11 @@ int int_reverse_safe(
       switchnum--;
 
 #elif defined(_ABS_NORM_SIG_)
-      ARES_INC = 0.0;
-      AARG_INC += siggrad[switchnum] * (*Ares);
+      {
+        const revreal aTmp = *Ares;
+        ARES_INC = 0.0;
+        AARG_INC += siggrad[switchnum] * aTmp;
+      }
       switchnum--;
 #else
 #if !defined(_NTIGHT_)
-- 
2.43.0


From cdca42afdc80e4b48580beffa2988f49f1333afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:45 +0000
Subject: [PATCH 65/89] fix: directional_active_gradient writes past its matrix
 of directions

---
 ADOL-C/src/drivers/psdrivers.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/drivers/psdrivers.cpp b/ADOL-C/src/drivers/psdrivers.cpp
index 454f550..73eb5e2 100644
--- a/ADOL-C/src/drivers/psdrivers.cpp
+++ b/ADOL-C/src/drivers/psdrivers.cpp
@@ -127,7 +127,7 @@ int directional_active_gradient(short tag,       /* trace identifier */
   bool done = 0;
   int j = 0;
 
-  while ((k < 6) && (done == 0)) {
+  while ((k <= n) && (done == 0)) {
     fov_pl_forward(tag, 1, n, k, x, E, &y, grad, z, gradu, sigma_g);
 
     size_t sum = 0;
@@ -144,7 +144,8 @@ int directional_active_gradient(short tag,       /* trace identifier */
     } else {
       if (j == max_dk)
         j++;
-      E[j][k] = 1;
+      if (k < n)
+        E[j][k] = 1;
       j++;
       k++;
     }
-- 
2.43.0


From 8772c542cc7909a06187c7440d7dfac3701d04ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:26 +0000
Subject: [PATCH 66/89] fix: tape_doc does not list conditional, parameter and
 subscript operations

---
 ADOL-C/src/tapedoc/tapedoc.cpp | 101 +++++++++++++++++++++++++++++++++
 1 file changed, 101 insertions(+)

diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index 38bdde5..e9ff7a8 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -287,6 +287,16 @@ void tape_doc(short tnum,     /* tape id */
 
   dp_T0 = myalloc1(tape.tapestats(TapeInfos::NUM_MAX_LIVES));
 
+  // reads and lists the current operation, given its numbers of locations and
+  // constants
+  auto list_op = [&](const char *name, int nloc, int ncst) {
+    for (int l = 0; l < nloc; ++l)
+      loc_a[l] = tape.get_locint_f();
+    for (int l = 0; l < ncst; ++l)
+      cst_d[l] = tape.get_val_f();
+    filewrite(operation, name, nloc, loc_a, ncst, cst_d);
+  };
+
   operation = tape.get_op_f();
   ++op_cnt;
   --rev_op_cnt;
@@ -1274,6 +1284,97 @@ void tape_doc(short tnum,     /* tape id */
       filewrite(operation, "death not", 2, loc_a, 0, cst_d);
       break;
 
+      /****************************************************************************/
+      /* operations listed with their locations and constants only: conditional,
+       * parameter and active subscript operations */
+    case cond_eq_assign:
+      list_op("cond eq assign $\\longrightarrow$", 4, 1);
+      break;
+    case cond_eq_assign_s:
+      list_op("cond eq assign s $\\longrightarrow$", 3, 1);
+      break;
+    case assign_p:
+      list_op("assign p", 2, 0);
+      break;
+    case eq_a_a:
+      list_op("eq a a", 3, 1);
+      break;
+    case neq_a_a:
+      list_op("neq a a", 3, 1);
+      break;
+    case le_a_a:
+      list_op("le a a", 3, 1);
+      break;
+    case gt_a_a:
+      list_op("gt a a", 3, 1);
+      break;
+    case ge_a_a:
+      list_op("ge a a", 3, 1);
+      break;
+    case lt_a_a:
+      list_op("lt a a", 3, 1);
+      break;
+    case subscript:
+      list_op("subscript", 3, 1);
+      break;
+    case subscript_ref:
+      list_op("subscript ref", 3, 1);
+      break;
+    case ref_copyout:
+      list_op("ref copyout", 2, 0);
+      break;
+    case ref_incr_a:
+      list_op("ref incr a", 1, 0);
+      break;
+    case ref_decr_a:
+      list_op("ref decr a", 1, 0);
+      break;
+    case ref_assign_d:
+      list_op("ref assign d", 1, 1);
+      break;
+    case ref_assign_d_zero:
+      list_op("ref assign d zero", 1, 0);
+      break;
+    case ref_assign_d_one:
+      list_op("ref assign d one", 1, 0);
+      break;
+    case ref_assign_a:
+      list_op("ref assign a", 2, 0);
+      break;
+    case ref_assign_ind:
+      list_op("ref assign ind", 1, 0);
+      break;
+    case ref_eq_plus_d:
+      list_op("ref eq plus d", 1, 1);
+      break;
+    case ref_eq_plus_a:
+      list_op("ref eq plus a", 2, 0);
+      break;
+    case ref_eq_min_d:
+      list_op("ref eq min d", 1, 1);
+      break;
+    case ref_eq_min_a:
+      list_op("ref eq min a", 2, 0);
+      break;
+    case ref_eq_mult_d:
+      list_op("ref eq mult d", 1, 1);
+      break;
+    case ref_eq_mult_a:
+      list_op("ref eq mult a", 2, 0);
+      break;
+    case ref_cond_assign:
+      list_op("ref cond assign $\\longrightarrow$", 4, 1);
+      break;
+    case ref_cond_assign_s:
+      list_op("ref cond assign s $\\longrightarrow$", 3, 1);
+      break;
+    case ref_cond_eq_assign:
+      list_op("ref cond eq assign $\\longrightarrow$", 4, 1);
+      break;
+    case ref_cond_eq_assign_s:
+      list_op("ref cond eq assign s $\\longrightarrow$", 3, 1);
+      break;
+
       /****************************************************************************/
     case ext_diff:
       loc_a[0] = tape.get_locint_f() + 1; /* index */
-- 
2.43.0


From 0fe3c19bb4218559147478a616b23d5e8048ea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:12 +0000
Subject: [PATCH 67/89] fix: checkpointing accepts state arrays with gaps
 between the locations

---
 ADOL-C/src/checkpointing.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index bcddb6b..20e3dec 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -197,6 +197,11 @@ void checkInput(short tapeId, detail::Infos *cpInfos) {
     fail(CHECKPOINTING_NULLPOINTER_FUNCTION_DOUBLE, CURRENT_LOCATION);
   if (cpInfos->adp_x == nullptr)
     fail(CHECKPOINTING_NULLPOINTER_ARGUMENT, CURRENT_LOCATION);
+  // the taped operation only stores the first input and output location
+  for (int i = 1; i < cpInfos->dim; ++i)
+    if (cpInfos->adp_x[i].loc() != cpInfos->adp_x[0].loc() + to_size_t(i) ||
+        cpInfos->adp_y[i].loc() != cpInfos->adp_y[0].loc() + to_size_t(i))
+      fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP, CURRENT_LOCATION);
 }
 
 /****************************************************************************/
-- 
2.43.0


From e0744fe5f767156305445741eb9edaf0c51c9712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:12 +0000
Subject: [PATCH 68/89] fix: checkpointing drops the overwritten values the
 reverse sweep needs

---
 ADOL-C/src/checkpointing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 20e3dec..6bbcc7a 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -651,7 +651,8 @@ int Context::checkpointing(short tapeId) {
   initExternalDiffFunction(edf);
   edf->cp_index = cpInfos->index;
   edf->dp_x_changes = 0;
-  edf->dp_y_priorRequired = 0;
+  // the outputs overwrite values that the reverse sweep restores
+  edf->dp_y_priorRequired = 1;
   ValueTape &tape = findTape(cpInfos->tapeId);
   // but we do not call it
   // we use direct taping to avoid unnecessary argument copying
-- 
2.43.0


From 0846670db920d9facfea150537155225bab2c49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:12 +0000
Subject: [PATCH 69/89] fix: checkpointing discards adjoints of an input that
 is used elsewhere

---
 ADOL-C/include/adolc/checkpointing.h | 1 +
 ADOL-C/src/checkpointing.cpp         | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/include/adolc/checkpointing.h b/ADOL-C/include/adolc/checkpointing.h
index 00c0631..8e4612e 100644
--- a/ADOL-C/include/adolc/checkpointing.h
+++ b/ADOL-C/include/adolc/checkpointing.h
@@ -87,6 +87,7 @@ struct Infos {
   int dim{0};              /* number of variables in input and output (n=m) */
   adouble *adp_x{nullptr}; /* input of the first step */
   adouble *adp_y{nullptr}; /* output of the last step; will be set by ADOLC */
+  bool inPlace{true};      /* input and output use the same locations */
 
   int check{0};
   int capo{0};
diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 6bbcc7a..6cd1a51 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -410,7 +410,9 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
   tape.branchSwitchWarning(old_bsw);
 
   // save results
-  std::copy(adjoint.begin(), adjoint.end(), z);
+  // the input keeps its adjoint from other uses unless it is overwritten
+  for (int i = 0; i < n; ++i)
+    z[i] = cpInfos->inPlace ? adjoint[i] : z[i] + adjoint[i];
 
   return 0;
 }
@@ -502,7 +504,9 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
 
   // save results
   for (int row = 0; row < q; ++row)
-    std::copy(adjointRows[row], adjointRows[row] + n, Zq[row]);
+    for (int i = 0; i < n; ++i)
+      Zq[row][i] = cpInfos->inPlace ? adjointRows[row][i]
+                                    : Zq[row][i] + adjointRows[row][i];
   return 0;
 }
 
@@ -663,6 +667,7 @@ int Context::checkpointing(short tapeId) {
   tape.put_loc(cpInfos->dim);
   edf->firstIndLocation = cpInfos->adp_x[0].loc();
   edf->firstDepLocation = cpInfos->adp_y[0].loc();
+  cpInfos->inPlace = edf->firstIndLocation == edf->firstDepLocation;
 
   std::vector<double> vals(tape.store(), tape.store() + tape.storeSize());
 
-- 
2.43.0


From 768dc9da31152ad76a8abd4fdbb777b22a3a9b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:12 +0000
Subject: [PATCH 70/89] fix: checkpointing contexts share the state of revolve

---
 ADOL-C/include/adolc/checkpointing.h |  5 +++++
 ADOL-C/src/checkpointing.cpp         | 19 ++++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/ADOL-C/include/adolc/checkpointing.h b/ADOL-C/include/adolc/checkpointing.h
index 8e4612e..2b5bc6c 100644
--- a/ADOL-C/include/adolc/checkpointing.h
+++ b/ADOL-C/include/adolc/checkpointing.h
@@ -17,6 +17,7 @@
 
 #include <adolc/adolcexport.h>
 #include <adolc/internal/common.h>
+#include <adolc/revolve.h>
 #include <array>
 #include <stack>
 
@@ -94,6 +95,7 @@ struct Infos {
   int fine{0};
   int info{0};
   int currentCP{0};
+  revolve_nums schedule; /* state of revolve for this context */
   double *dp_internal_for{nullptr};
   size_t index{0};
   // unsued but required to be stored in our custom buffer type
@@ -118,6 +120,9 @@ struct Infos {
   /** @brief Run the forward checkpoint schedule for the current state. */
   void revolveForward(int keep);
 
+  /** @brief Ask revolve for the next action of this context's schedule. */
+  revolve_action nextAction();
+
   /** @brief Raise an ADOL-C error for the current revolve status code. */
   void revolveError();
 };
diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 6cd1a51..c01e2ff 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -26,6 +26,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cstring>
+#include <utility>
 #include <vector>
 
 namespace ADOLC::CP {
@@ -119,6 +120,16 @@ void detail::Infos::revolveError() {
   }
 }
 
+/* the state of revolve is global, contexts may interleave their schedules */
+revolve_action detail::Infos::nextAction() {
+  revolve_nums &current = get_revolve_numbers();
+  std::swap(current, schedule);
+  const revolve_action action =
+      revolve(&check, &capo, &fine, checkpoints, &info);
+  std::swap(current, schedule);
+  return action;
+}
+
 void detail::Infos::revolveForward(int keep) {
   /* init revolve */
   check = -1;
@@ -129,7 +140,7 @@ void detail::Infos::revolveForward(int keep) {
   /* execute all time steps */
   enum revolve_action whattodo;
   do {
-    whattodo = revolve(&check, &capo, &fine, checkpoints, &info);
+    whattodo = nextAction();
 
     switch (whattodo) {
     case revolve_takeshot:
@@ -355,8 +366,7 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
   // checkpointing
   enum revolve_action whattodo;
   do {
-    whattodo = revolve(&cpInfos->check, &cpInfos->capo, &cpInfos->fine,
-                       cpInfos->checkpoints, &cpInfos->info);
+    whattodo = cpInfos->nextAction();
     switch (whattodo) {
     case revolve_terminate:
       break;
@@ -446,8 +456,7 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
   // checkpointing
   enum revolve_action whattodo;
   do {
-    whattodo = revolve(&cpInfos->check, &cpInfos->capo, &cpInfos->fine,
-                       cpInfos->checkpoints, &cpInfos->info);
+    whattodo = cpInfos->nextAction();
     switch (whattodo) {
     case revolve_terminate:
       break;
-- 
2.43.0


From 2cfdf16d213a62b7559a02d929c638b9a4b495ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:12 +0000
Subject: [PATCH 71/89] fix: checkpointing schedule is lost after a reverse
 sweep and without keep

---
 ADOL-C/include/adolc/checkpointing.h |  5 ++++
 ADOL-C/src/checkpointing.cpp         | 44 ++++++++++++++++++++++++----
 2 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/ADOL-C/include/adolc/checkpointing.h b/ADOL-C/include/adolc/checkpointing.h
index 2b5bc6c..9402d6e 100644
--- a/ADOL-C/include/adolc/checkpointing.h
+++ b/ADOL-C/include/adolc/checkpointing.h
@@ -96,6 +96,7 @@ struct Infos {
   int info{0};
   int currentCP{0};
   revolve_nums schedule; /* state of revolve for this context */
+  bool ready{false};     /* last step is taped, schedule waits for reverse */
   double *dp_internal_for{nullptr};
   size_t index{0};
   // unsued but required to be stored in our custom buffer type
@@ -120,6 +121,10 @@ struct Infos {
   /** @brief Run the forward checkpoint schedule for the current state. */
   void revolveForward(int keep);
 
+  /** @brief Rerun the forward schedule from the first checkpoint, unless it
+   * already waits for a reverse sweep. */
+  void prepareReverse();
+
   /** @brief Ask revolve for the next action of this context's schedule. */
   revolve_action nextAction();
 
diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index c01e2ff..621b339 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -132,10 +132,16 @@ revolve_action detail::Infos::nextAction() {
 
 void detail::Infos::revolveForward(int keep) {
   /* init revolve */
+  clearStack();
   check = -1;
   capo = 0;
   info = 0;
   fine = steps;
+  currentCP = 0;
+
+  // revolve takes no snapshot for a single step
+  if (steps == 1)
+    takeSnapshot();
 
   /* execute all time steps */
   enum revolve_action whattodo;
@@ -168,6 +174,18 @@ void detail::Infos::revolveForward(int keep) {
           CURRENT_LOCATION);
     }
   } while (whattodo == revolve_takeshot || whattodo == revolve_advance);
+  ready = true;
+}
+
+void detail::Infos::prepareReverse() {
+  if (!ready) {
+    // the first checkpoint holds the input of the first step
+    while (cpStack.size() > 1)
+      release();
+    restore();
+    revolveForward(1);
+  }
+  ready = false;
 }
 
 /* register one time step function (uses buffer template) */
@@ -233,14 +251,19 @@ int zos_forward(size_t cpIndex, short tapeId, [[maybe_unused]] int m, int n,
   std::vector<double> state(x, x + n);
   InternalForwardBuffer guard(cpInfos, state.data());
 
-  cpInfos->revolveForward(keep);
+  // the checkpoints of the last sweep with keep have to survive otherwise
+  if (keep)
+    cpInfos->revolveForward(keep);
+  else
+    for (int i = 0; i < cpInfos->steps; ++i)
+      cpInfos->function_double(cpInfos->dim, state.data());
 
   // write back
   std::copy(state.begin(), state.end(), y);
   return 0;
 }
 
-int fos_forward(size_t cpIndex, short tapeId, int m, int n, int,
+int fos_forward(size_t cpIndex, short tapeId, int m, int n, int keep,
                 const double *x, const double *X, double *y, double *Y) {
   ValueTape &tape = findTape(tapeId);
   detail::Infos *cpInfos = checkpointingInfos(tape, cpIndex);
@@ -253,6 +276,14 @@ int fos_forward(size_t cpIndex, short tapeId, int m, int n, int,
   std::vector<double> nextState(m);
   std::vector<double> nextTangent(m);
 
+  if (keep) {
+    // checkpoint the input of the first step for the reverse sweep
+    InternalForwardBuffer guard(cpInfos, state.data());
+    cpInfos->clearStack();
+    cpInfos->takeSnapshot();
+  }
+  cpInfos->ready = false; // the step tape is overwritten
+
   int ret_c = 3;
   for (int step = 0; step < cpInfos->steps; ++step) {
     if (step == 0 || cpInfos->retaping != 0)
@@ -297,6 +328,8 @@ int fov_forward(size_t cpIndex, short tapeId, int m, int n, int p,
     for (int col = 0; col < p; ++col)
       tangent[static_cast<size_t>(row) * p + col] = Xp[row][col];
 
+  cpInfos->ready = false; // the step tape is overwritten
+
   int ret_c = 3;
   for (int step = 0; step < cpInfos->steps; ++step) {
     if (step == 0 || cpInfos->retaping != 0)
@@ -357,6 +390,8 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
   std::vector<double> adjoint(u, u + m);
   InternalForwardBuffer guard(cpInfos, state.data());
 
+  cpInfos->prepareReverse();
+
   // execute second part of revolve_firstturn left from forward sweep
   ::fos_reverse(cpInfos->cpTapeId, m, n, adjoint.data(), adjoint.data());
 
@@ -416,7 +451,6 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
       break;
     }
   } while (whattodo != revolve_terminate && whattodo != revolve_error);
-  cpInfos->release(); // release first checkpoint if written
   tape.branchSwitchWarning(old_bsw);
 
   // save results
@@ -447,6 +481,8 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
               adjoint.data() + static_cast<size_t>(row) * m);
   setFovRows(adjoint, q, m, adjointRows);
 
+  cpInfos->prepareReverse();
+
   // execute second part of revolve_firstturn left from forward sweep
   ::fov_reverse(cpInfos->cpTapeId, m, n, q, adjointRows.data(),
                 adjointRows.data());
@@ -507,8 +543,6 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
     }
   } while (whattodo != revolve_terminate && whattodo != revolve_error);
 
-  // release first checkpoint if written
-  cpInfos->release();
   tape.branchSwitchWarning(old_bsw);
 
   // save results
-- 
2.43.0


From e0dbcb6c4b41995ff5de0e5562e29b3a33cc7dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:56 +0000
Subject: [PATCH 72/89] fix: objects of external functions are looked up on the
 external tape

---
 ADOL-C/src/externfcts.cpp  | 36 ++++++++++--------------------------
 ADOL-C/src/externfcts2.cpp | 25 ++++++++-----------------
 2 files changed, 18 insertions(+), 43 deletions(-)

diff --git a/ADOL-C/src/externfcts.cpp b/ADOL-C/src/externfcts.cpp
index 4461b88..a52f5cd 100644
--- a/ADOL-C/src/externfcts.cpp
+++ b/ADOL-C/src/externfcts.cpp
@@ -191,18 +191,6 @@ ext_diff_fct *get_ext_diff_fct(short tapeId, size_t index) {
  *
  */
 
-static int edfoo_wrapper_function(short tapeId, int m, int n, double *x,
-                                  double *y) {
-  ext_diff_fct *edf;
-  EDFobject *ebase;
-
-  ValueTape &tape = findTape(tapeId);
-  // figure out which edf
-  edf = get_ext_diff_fct(tapeId, tape.ext_diff_fct_index());
-  ebase = reinterpret_cast<EDFobject *>(edf->obj);
-  return ebase->function(tapeId, m, n, x, y);
-}
-
 static int edfoo_wrapper_zos_forward(short tapeId, int m, int n, int keep,
                                      double *x, double *y) {
   ext_diff_fct *edf;
@@ -271,7 +259,10 @@ void EDFobject::init_edf(EDFobject *ebase, short outerTapeId, short extTapeId) {
   edf->tapeId = outerTapeId;
   edf->extTapeId = extTapeId;
   edf->obj = reinterpret_cast<void *>(ebase);
-  edf->function = edfoo_wrapper_function;
+  // called with the external tape, which does not know the object
+  edf->function = [ebase](short tapeId, int m, int n, double *x, double *y) {
+    return ebase->function(tapeId, m, n, x, y);
+  };
   edf->zos_forward = edfoo_wrapper_zos_forward;
   edf->fos_forward = edfoo_wrapper_fos_forward;
   edf->fov_forward = edfoo_wrapper_fov_forward;
@@ -279,18 +270,6 @@ void EDFobject::init_edf(EDFobject *ebase, short outerTapeId, short extTapeId) {
   edf->fov_reverse = edfoo_wrapper_fov_reverse;
 }
 
-[[maybe_unused]] static int
-edfoo_iarr_wrapper_function(short tapeId, size_t iArrLength, size_t *iArr,
-                            int m, int n, double *x, double *y) {
-  ext_diff_fct *edf;
-  EDFobject_iArr *ebase;
-
-  ValueTape &tape = findTape(tapeId);
-  // figure out which edf
-  edf = get_ext_diff_fct(tapeId, tape.ext_diff_fct_index());
-  ebase = reinterpret_cast<EDFobject_iArr *>(edf->obj);
-  return ebase->function(tapeId, iArrLength, iArr, m, n, x, y);
-}
 static int edfoo_iarr_wrapper_zos_forward(short tapeId, size_t iArrLength,
                                           size_t *iArr, int m, int n, int keep,
                                           double *x, double *y) {
@@ -361,8 +340,13 @@ static int edfoo_iarr_wrapper_fov_reverse(short tapeId, size_t iArrLength,
 void EDFobject_iArr::init_edf(EDFobject_iArr *ebase) {
   ValueTape &tape = currentTape();
   edf = tape.ext_diff_append();
+  edf->tapeId = tape.tapeId();
+  edf->extTapeId = tape.tapeId();
   edf->obj = reinterpret_cast<void *>(ebase);
-  edf->function = edfoo_wrapper_function;
+  edf->function_iArr = [ebase](short tapeId, size_t iArrLength, size_t *iArr,
+                               int m, int n, double *x, double *y) {
+    return ebase->function(tapeId, iArrLength, iArr, m, n, x, y);
+  };
   edf->zos_forward_iArr = edfoo_iarr_wrapper_zos_forward;
   edf->fos_forward_iArr = edfoo_iarr_wrapper_fos_forward;
   edf->fov_forward_iArr = edfoo_iarr_wrapper_fov_forward;
diff --git a/ADOL-C/src/externfcts2.cpp b/ADOL-C/src/externfcts2.cpp
index 3e1db36..b54306f 100644
--- a/ADOL-C/src/externfcts2.cpp
+++ b/ADOL-C/src/externfcts2.cpp
@@ -145,8 +145,14 @@ int call_ext_fct(ext_diff_fct_v2 *edfct, size_t iArrLen, size_t *iArr,
         edfct->y[i][j] = y[i][j].value();
 
   tape.ext_diff_fct_index(edfct->index);
-  ret = edfct->function(edfct->extTapeId, iArrLen, iArr, nin, nout, insz,
-                        edfct->x, outsz, edfct->y, edfct->context);
+  // the external tape does not know the object
+  if (edfct->obj)
+    ret = reinterpret_cast<EDFobject_v2 *>(edfct->obj)
+              ->function(edfct->extTapeId, iArrLen, iArr, nin, nout, insz,
+                         edfct->x, outsz, edfct->y, edfct->context);
+  else
+    ret = edfct->function(edfct->extTapeId, iArrLen, iArr, nin, nout, insz,
+                          edfct->x, outsz, edfct->y, edfct->context);
 
   if (edfct->nestedAdolc) {
     std::copy(vals.begin(), vals.end(), tape.store());
@@ -168,20 +174,6 @@ ext_diff_fct_v2 *get_ext_diff_fct_v2(short tapeId, size_t index) {
   return tape.ext_diff_v2_getElement(index);
 }
 
-static int edfoo_v2_wrapper_function(short tapeId, size_t iArrLen, size_t *iArr,
-                                     size_t nin, size_t nout, size_t *insz,
-                                     double **x, size_t *outsz, double **y,
-                                     void *ctx) {
-  ext_diff_fct_v2 *edf;
-  EDFobject_v2 *ebase;
-
-  ValueTape &tape = findTape(tapeId);
-  // figure out which edf
-  edf = get_ext_diff_fct_v2(tapeId, tape.ext_diff_fct_index());
-  ebase = reinterpret_cast<EDFobject_v2 *>(edf->obj);
-  return ebase->function(tapeId, iArrLen, iArr, nin, nout, insz, x, outsz, y,
-                         ctx);
-}
 static int edfoo_v2_wrapper_zos_forward(short tapeId, size_t iArrLen,
                                         size_t *iArr, size_t nin, size_t nout,
                                         size_t *insz, double **x, size_t *outsz,
@@ -264,7 +256,6 @@ void EDFobject_v2::init_edf(EDFobject_v2 *ebase, short outerTapeId,
   edf->tapeId = outerTapeId;
   edf->extTapeId = extTapeId;
   edf->obj = reinterpret_cast<void *>(ebase);
-  edf->function = edfoo_v2_wrapper_function;
   edf->zos_forward = edfoo_v2_wrapper_zos_forward;
   edf->fos_forward = edfoo_v2_wrapper_fos_forward;
   edf->fov_forward = edfoo_v2_wrapper_fov_forward;
-- 
2.43.0


From f0452940bad99b0a59779dbbbd73cf9f518b93b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:28 +0000
Subject: [PATCH 73/89] fix: memory of grouped external functions forgets
 larger calls

---
 ADOL-C/src/externfcts2.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ADOL-C/src/externfcts2.cpp b/ADOL-C/src/externfcts2.cpp
index b54306f..a113bbe 100644
--- a/ADOL-C/src/externfcts2.cpp
+++ b/ADOL-C/src/externfcts2.cpp
@@ -42,6 +42,11 @@ static void update_ext_fct_memory(ext_diff_fct_v2 *edfct, size_t nin,
     m_isz = (m_isz < insz[i]) ? insz[i] : m_isz;
   for (size_t i = 0; i < nout; i++)
     m_osz = (m_osz < outsz[i]) ? outsz[i] : m_osz;
+  // earlier calls of the same function must still fit
+  nin = (edfct->max_nin > nin) ? edfct->max_nin : nin;
+  nout = (edfct->max_nout > nout) ? edfct->max_nout : nout;
+  m_isz = (edfct->max_insz > m_isz) ? edfct->max_insz : m_isz;
+  m_osz = (edfct->max_outsz > m_osz) ? edfct->max_outsz : m_osz;
   if (edfct->x == nullptr || edfct->y == nullptr || edfct->xp == nullptr ||
       edfct->yp == nullptr || edfct->up == nullptr || edfct->zp == nullptr ||
       edfct->Xp == nullptr || edfct->Yp == nullptr || edfct->Up == nullptr ||
-- 
2.43.0


From fb4ae794bb3ef01b8c68e99179230ccf436c07e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:23 +0000
Subject: [PATCH 74/89] fix: repeated calls of an external function share the
 locations of the last one

---
 ADOL-C/src/checkpointing.cpp   | 2 ++
 ADOL-C/src/externfcts.cpp      | 4 +++-
 ADOL-C/src/fo_rev.cpp          | 8 ++++++++
 ADOL-C/src/ho_rev.cpp          | 4 ++++
 ADOL-C/src/tapedoc/tapedoc.cpp | 2 --
 ADOL-C/src/uni5_for.cpp        | 4 ++++
 6 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 621b339..4fcbf94 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -708,6 +708,8 @@ int Context::checkpointing(short tapeId) {
   tape.put_loc(edf->index);
   tape.put_loc(cpInfos->dim);
   tape.put_loc(cpInfos->dim);
+  tape.put_loc(cpInfos->adp_x[0].loc());
+  tape.put_loc(cpInfos->adp_y[0].loc());
   edf->firstIndLocation = cpInfos->adp_x[0].loc();
   edf->firstDepLocation = cpInfos->adp_y[0].loc();
   cpInfos->inPlace = edf->firstIndLocation == edf->firstDepLocation;
diff --git a/ADOL-C/src/externfcts.cpp b/ADOL-C/src/externfcts.cpp
index a52f5cd..5dbf346 100644
--- a/ADOL-C/src/externfcts.cpp
+++ b/ADOL-C/src/externfcts.cpp
@@ -66,9 +66,11 @@ void call_ext_fct_commonPrior(ext_diff_fct *edfct, int n, adouble *xa, int m,
   tape.put_loc(edfct->index);
   // The ext-diff shape is stored per taped operation, not on the edfct
   // itself. Reusing the same edfct for multiple calls on one tape must remain
-  // correct even if different calls use different m/n.
+  // correct even if different calls use different m/n or other variables.
   tape.put_loc(to_size_t(n));
   tape.put_loc(to_size_t(m));
+  tape.put_loc(xa->loc());
+  tape.put_loc(ya->loc());
 
   // store the index of the first location of input and output variables to
   // later find the right position to read (write) from (to) the taylor
diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index aacb93f..f45be39 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2657,10 +2657,14 @@ int int_reverse_safe(
 #if !defined(_INT_REV_)
       /*--------------------------------------------------------------------------*/
     case ext_diff: { /* extern differntiated function */
+      res = tape.get_locint_r();
+      arg = tape.get_locint_r();
       m = static_cast<int>(tape.get_locint_r());
       n = static_cast<int>(tape.get_locint_r());
       tape.ext_diff_fct_index(tape.get_locint_r());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = arg;
+      edfct->firstDepLocation = res;
       edfct->q = nrows;
 
       if (edfct->ADOLC_EXT_FCT_POINTER == NULL)
@@ -2736,6 +2740,8 @@ int int_reverse_safe(
       break;
     }
     case ext_diff_iArr: /* extern differntiated function */
+      res = tape.get_locint_r();
+      arg = tape.get_locint_r();
       m = static_cast<int>(tape.get_locint_r());
       n = static_cast<int>(tape.get_locint_r());
       tape.ext_diff_fct_index(tape.get_locint_r());
@@ -2745,6 +2751,8 @@ int int_reverse_safe(
         iArr[loop - 1] = tape.get_locint_r();
       tape.get_locint_r(); /* get it again */
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = arg;
+      edfct->firstDepLocation = res;
       edfct->q = nrows;
 
       if (edfct->ADOLC_EXT_FCT_IARR_POINTER == NULL)
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 035b6b7..26f306b 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2875,10 +2875,14 @@ int hov_ti_reverse(
              "TODO: add nestedReverseEval accumulation semantics to ho_rev.cpp "
              "before supporting nested higher-order reverse passes.");
 
+      res = tape.get_locint_r();
+      arg = tape.get_locint_r();
       m = static_cast<int>(tape.get_locint_r());
       n = static_cast<int>(tape.get_locint_r());
       tape.ext_diff_fct_index(tape.get_locint_r());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = arg;
+      edfct->firstDepLocation = res;
       edfct->q = nrows;
       /* degree is not known when registering external functions,
          so do memory allocation here (at least for now) */
diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index e9ff7a8..c8cf1cc 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -1382,7 +1382,6 @@ void tape_doc(short tnum,     /* tape id */
       loc_a[2] = tape.get_locint_f();     /* m */
       loc_a[3] = tape.get_locint_f();     /* xa[0].loc */
       loc_a[3] = tape.get_locint_f();     /* ya[0].loc */
-      loc_a[3] = tape.get_locint_f();     /* dummy */
       filewrite(operation, "extern diff", 3, loc_a, 0, cst_d);
       break;
 
@@ -1396,7 +1395,6 @@ void tape_doc(short tnum,     /* tape id */
       loc_a[2] = tape.get_locint_f();     /* m */
       loc_a[3] = tape.get_locint_f();     /* xa[0].loc */
       loc_a[3] = tape.get_locint_f();     /* ya[0].loc */
-      loc_a[3] = tape.get_locint_f();     /* dummy */
       filewrite(operation, "extern diff iArr", 3, loc_a, 0, cst_d);
       break;
     case ext_diff_v2:
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index c407ca4..dbc6d26 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5552,6 +5552,8 @@ int hov_forward(
       n = static_cast<int>(tape.get_locint_f());
       m = static_cast<int>(tape.get_locint_f());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = tape.get_locint_f();
+      edfct->firstDepLocation = tape.get_locint_f();
       edfct->p = p;
       if (edfct->ADOLC_EXT_FCT_POINTER == nullptr)
         ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_DIFFFUNC,
@@ -5598,6 +5600,8 @@ int hov_forward(
       n = static_cast<int>(tape.get_locint_f());
       m = static_cast<int>(tape.get_locint_f());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = tape.get_locint_f();
+      edfct->firstDepLocation = tape.get_locint_f();
       edfct->p = p;
       if (edfct->ADOLC_EXT_FCT_IARR_POINTER == nullptr)
         ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_DIFFFUNC,
-- 
2.43.0


From be28e94cb8ce6e87ac4e2c5c99a09c85877e9dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:54 +0000
Subject: [PATCH 75/89] fix: memory of grouped external functions is too small
 for their directions

---
 ADOL-C/src/externfcts2.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/ADOL-C/src/externfcts2.cpp b/ADOL-C/src/externfcts2.cpp
index a113bbe..4973f7f 100644
--- a/ADOL-C/src/externfcts2.cpp
+++ b/ADOL-C/src/externfcts2.cpp
@@ -53,15 +53,11 @@ static void update_ext_fct_memory(ext_diff_fct_v2 *edfct, size_t nin,
       edfct->Zp == nullptr || edfct->max_nin < nin || edfct->max_nout < nout ||
       edfct->max_insz < m_isz || edfct->max_outsz < m_osz) {
     char *tmp;
-    size_t q = nout * m_osz;
-    size_t totalmem =
-        (3 * nin * m_isz + 3 * nout * m_osz
-         // + nin*m_isz*p + nout*m_osz*p
-         // + q*nout*m_osz + q*nin*m_isz
-         ) * sizeof(double) +
-        (3 * nin + 3 * nout + nin * m_isz + nout * m_osz + q * nout + q * nin) *
-            sizeof(double *) +
-        (nin + nout + 2 * q) * sizeof(double **);
+    // x, xp, zp, y, yp, up hold values, Xp, Zp, Yp, Up pointers to directions
+    size_t totalmem = 3 * (nin * m_isz + nout * m_osz) * sizeof(double) +
+                      (3 * (nin + nout) + 2 * (nin * m_isz + nout * m_osz)) *
+                          sizeof(double *) +
+                      2 * (nin + nout) * sizeof(double **);
     if (edfct->allmem != NULL)
       free(edfct->allmem);
     edfct->allmem = (char *)malloc(totalmem);
-- 
2.43.0


From 89f9b1a5cc48e76f181fa49ded15444876689b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:32 +0000
Subject: [PATCH 76/89] fix: fixed-point iterations of another tape are used
 when differentiating

---
 ADOL-C/src/fixpoint.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/ADOL-C/src/fixpoint.cpp b/ADOL-C/src/fixpoint.cpp
index 003438b..f5051c8 100644
--- a/ADOL-C/src/fixpoint.cpp
+++ b/ADOL-C/src/fixpoint.cpp
@@ -28,6 +28,7 @@
 /* F(x,u,y,dim_x,dim_u) */
 /* norm(x,dim_x)        */
 struct fpi_data {
+  short tapeId;
   size_t edf_index;
   short sub_tape_num;
   double_F double_func;
@@ -42,6 +43,15 @@ struct fpi_data {
 
 static std::vector<fpi_data> fpi_stack;
 
+// Indices of external functions are unique only within their tape, and the tape
+// may have been recorded anew: the latest entry counts.
+static std::vector<fpi_data>::reverse_iterator find_fpi(short tapeId,
+                                                        size_t edf_index) {
+  return std::find_if(fpi_stack.rbegin(), fpi_stack.rend(), [&](auto &&v) {
+    return v.tapeId == tapeId && v.edf_index == edf_index;
+  });
+}
+
 static int iteration(short, int dim_x, int dim_xu, double *xu, double *x_fix) {
   double err;
   const fpi_data &current = fpi_stack.back();
@@ -76,11 +86,9 @@ static int fp_zos_forward(short tapeId, int dim_x, int dim_xu, int, double *xu,
   const size_t edf_index = tape.ext_diff_fct_index();
 
   // Find fpi_stack element with index 'edf_index'.
-  auto current =
-      std::find_if(fpi_stack.begin(), fpi_stack.end(),
-                   [&](auto &&v) { return v.edf_index == edf_index; });
+  auto current = find_fpi(tapeId, edf_index);
 
-  if (current == fpi_stack.end())
+  if (current == fpi_stack.rend())
     ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
 
   for (int i = 0; i < dim_x; ++i)
@@ -115,11 +123,9 @@ static int fp_fos_forward(short tapeId, int dim_x, int dim_xu, int keep,
   const size_t edf_index = tape.ext_diff_fct_index();
 
   // Find fpi_stack element with index 'edf_index'.
-  auto current =
-      std::find_if(fpi_stack.begin(), fpi_stack.end(),
-                   [&](auto &&v) { return v.edf_index == edf_index; });
+  auto current = find_fpi(tapeId, edf_index);
 
-  if (current == fpi_stack.end())
+  if (current == fpi_stack.rend())
     ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
   for (size_t k = 1; (k < current->N_max_deriv) || (k < current->N_max); ++k) {
     if (k > 1) {
@@ -162,11 +168,9 @@ static int fp_fos_reverse(short tapeId, int dim_x, int dim_xu,
   const size_t edf_index = tape.ext_diff_fct_index();
 
   // Find fpi_stack element with index 'edf_index'.
-  auto current =
-      std::find_if(fpi_stack.begin(), fpi_stack.end(),
-                   [&](auto &&v) { return v.edf_index == edf_index; });
+  auto current = find_fpi(tapeId, edf_index);
 
-  if (current == fpi_stack.end())
+  if (current == fpi_stack.rend())
     ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
 
   double *U = new double[dim_xu];
@@ -223,6 +227,7 @@ int fp_iteration(short tapeId, short sub_tape_num, double_F double_func,
 
   // add new fp information
   fpi_stack.emplace_back(fpi_data{
+      tapeId,
       edf_iteration->index,
       sub_tape_num,
       double_func,
-- 
2.43.0


From a2d41008d1c1c8123d689f016d9a5baa0f8f6937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:32 +0000
Subject: [PATCH 77/89] fix: adjoint fixed-point iteration starts from
 uninitialised memory

---
 ADOL-C/src/fixpoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fixpoint.cpp b/ADOL-C/src/fixpoint.cpp
index f5051c8..58b364f 100644
--- a/ADOL-C/src/fixpoint.cpp
+++ b/ADOL-C/src/fixpoint.cpp
@@ -173,7 +173,7 @@ static int fp_fos_reverse(short tapeId, int dim_x, int dim_xu,
   if (current == fpi_stack.rend())
     ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
 
-  double *U = new double[dim_xu];
+  double *U = new double[dim_xu]();
   double *xi = new double[dim_x];
 
   for (size_t k = 1; k < current->N_max_deriv; ++k) {
-- 
2.43.0


From db5fd75e3eb321439b0b9f5f64540b73d10e9819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:55 +0000
Subject: [PATCH 78/89] fix: adjoint fixed-point iteration uses the derivatives
 at the recorded point

---
 ADOL-C/src/fixpoint.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/fixpoint.cpp b/ADOL-C/src/fixpoint.cpp
index 58b364f..998cbb2 100644
--- a/ADOL-C/src/fixpoint.cpp
+++ b/ADOL-C/src/fixpoint.cpp
@@ -159,8 +159,8 @@ static int fp_fos_forward(short tapeId, int dim_x, int dim_xu, int keep,
 }
 
 static int fp_fos_reverse(short tapeId, int dim_x, int dim_xu,
-                          double *x_fix_bar, double *xu_bar, double *,
-                          double *) {
+                          double *x_fix_bar, double *xu_bar, double *xu,
+                          double *x_fix) {
   // (d x_fix) / (d x_0) = 0 (!)
 
   double err = 0.0;
@@ -176,6 +176,12 @@ static int fp_fos_reverse(short tapeId, int dim_x, int dim_xu,
   double *U = new double[dim_xu]();
   double *xi = new double[dim_x];
 
+  // the derivatives of F are needed at the fixed point belonging to u
+  std::vector<double> at(xu, xu + dim_xu);
+  std::vector<double> value(dim_x);
+  std::copy(x_fix, x_fix + dim_x, at.begin());
+  zos_forward(current->sub_tape_num, dim_x, dim_xu, 1, at.data(), value.data());
+
   for (size_t k = 1; k < current->N_max_deriv; ++k) {
     for (int i = 0; i < dim_x; ++i)
       xi[i] = U[i];
-- 
2.43.0


From 81da0716fb763a15495aa87989518e9aa7eb2635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:30 +0000
Subject: [PATCH 79/89] fix: active subscripts assume contiguous elements of an
 advector

---
 ADOL-C/include/adolc/advector.h |  9 ++++++++-
 ADOL-C/src/advector.cpp         | 17 +++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/advector.h b/ADOL-C/include/adolc/advector.h
index 11d1956..0fa0927 100644
--- a/ADOL-C/include/adolc/advector.h
+++ b/ADOL-C/include/adolc/advector.h
@@ -112,7 +112,13 @@ void ADOLC_API condeqassign(adubref &res, const adouble &cond,
                             const adouble &arg);
 
 class ADOLC_API advector {
-  std::vector<adouble> data_;
+  // mutable: reading through an active subscript may have to move the elements
+  mutable std::vector<adouble> data_;
+
+  // Subscript operations address the elements relative to the first one, but
+  // assigning a temporary to an element or copying a std::vector leaves
+  // locations with gaps.
+  void ensureContiguousElements() const;
 
 public:
   advector() = default;
@@ -121,6 +127,7 @@ public:
 
   advector(const advector &ad_vec)
       : data_(currentTape().ensureContiguousLocations_(ad_vec.size())) {
+    ad_vec.ensureContiguousElements();
     adolc_vec_copy(data_.data(), ad_vec.data_.data(), ad_vec.size());
   }
 
diff --git a/ADOL-C/src/advector.cpp b/ADOL-C/src/advector.cpp
index 10975cb..fff923a 100644
--- a/ADOL-C/src/advector.cpp
+++ b/ADOL-C/src/advector.cpp
@@ -443,7 +443,23 @@ bool advector::nondecreasing() const {
   return ret;
 }
 
+void advector::ensureContiguousElements() const {
+  const size_t n = data_.size();
+  size_t i = 1;
+  while (i < n && data_[i].loc() == data_[0].loc() + i)
+    ++i;
+  if (i >= n)
+    return;
+
+  std::vector<adouble> block(currentTape().ensureContiguousLocations_(n));
+  for (i = 0; i < n; ++i) {
+    block[i] = data_[i];
+    data_[i] = std::move(block[i]);
+  }
+}
+
 adouble advector::operator[](const adouble &index) const {
+  ensureContiguousElements();
   ValueTape &tape = currentTape();
   const size_t idx = (size_t)trunc(fabs(index.value()));
   adouble ret_adouble;
@@ -470,6 +486,7 @@ adouble advector::operator[](const adouble &index) const {
 }
 
 adubref advector::operator[](const adouble &index) {
+  ensureContiguousElements();
   ValueTape &tape = currentTape();
   const size_t idx = (size_t)trunc(fabs(index.value()));
   size_t locat = tape.next_loc();
-- 
2.43.0


From f5826a5ea4e2ce92522a95be9e0ac46324795938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:03 +0000
Subject: [PATCH 80/89] fix: schedules of checkpoints of different threads
 share one state

---
 ADOL-C/include/adolc/revolve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/revolve.h b/ADOL-C/include/adolc/revolve.h
index 7295d87..59de893 100644
--- a/ADOL-C/include/adolc/revolve.h
+++ b/ADOL-C/include/adolc/revolve.h
@@ -29,7 +29,7 @@ struct revolve_nums {
   int oldfine{0};
 };
 
-inline revolve_nums revolve_numbers;
+inline thread_local revolve_nums revolve_numbers;
 
 inline revolve_nums &get_revolve_numbers() { return revolve_numbers; }
 
-- 
2.43.0


From 7890176667527b9790778b63343e22e0bc1d885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:03 +0000
Subject: [PATCH 81/89] fix: fixed-point iterations are shared by the tapes of
 different threads

---
 ADOL-C/src/fixpoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fixpoint.cpp b/ADOL-C/src/fixpoint.cpp
index 998cbb2..a3cba11 100644
--- a/ADOL-C/src/fixpoint.cpp
+++ b/ADOL-C/src/fixpoint.cpp
@@ -41,7 +41,7 @@ struct fpi_data {
   size_t N_max_deriv;
 };
 
-static std::vector<fpi_data> fpi_stack;
+static thread_local std::vector<fpi_data> fpi_stack;
 
 // Indices of external functions are unique only within their tape, and the tape
 // may have been recorded anew: the latest entry counts.
-- 
2.43.0


From c60e5890f629b3ef4532404f959b11aad41f3477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:03 +0000
Subject: [PATCH 82/89] fix: drivers of different threads share their scratch
 memory

---
 ADOL-C/src/drivers/taylor.cpp  | 28 ++++++++++++++--------------
 ADOL-C/src/interfaces.cpp      |  8 ++++----
 ADOL-C/src/lie/adolc_lie_c.cpp | 16 ++++++++--------
 3 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index aca01dc..a39e453 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -491,17 +491,17 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
 /****************************************************************************/
 int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
   int i, j, l, q;
-  static double **I;
+  static thread_local double **I;
   double bi;
-  static double **Xhelp;
-  static double **W;
-  static double *xold;
-  static double ***A;
-  static double *w;
-  static int *dd;
-  static double *b;
-  static int nax, dax, bd, cgd;
-  static short **nonzero;
+  static thread_local double **Xhelp;
+  static thread_local double **W;
+  static thread_local double *xold;
+  static thread_local double ***A;
+  static thread_local double *w;
+  static thread_local int *dd;
+  static thread_local double *b;
+  static thread_local int nax, dax, bd, cgd;
+  static thread_local short **nonzero;
   short *nz;
   double *Aij;
   double *Xj;
@@ -620,8 +620,8 @@ int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
 /****************************************************************************/
 int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
                         double **tensor, double **S) {
-  static int dold, pold;
-  static struct item *coeff_list;
+  static thread_local int dold, pold;
+  static thread_local struct item *coeff_list;
   int *it = (int *)malloc(d * sizeof(int));
   double **X;
   double **Y;
@@ -720,8 +720,8 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
 /****************************************************************************/
 int tensor_eval(short tag, int m, int n, int d, int p, double *x,
                 double **tensor, double **S) {
-  static int dold, pold;
-  static struct item *coeff_list;
+  static thread_local int dold, pold;
+  static thread_local struct item *coeff_list;
   int **jm;
   int *it = (int *)malloc(d * sizeof(int));
   double *y = (double *)malloc(m * sizeof(double));
diff --git a/ADOL-C/src/interfaces.cpp b/ADOL-C/src/interfaces.cpp
index 45873d7..71765c5 100644
--- a/ADOL-C/src/interfaces.cpp
+++ b/ADOL-C/src/interfaces.cpp
@@ -92,8 +92,8 @@ int forward(short tag, int m, int n, int d, int keep, double **X, double **Y)
 int forward(short tag, int m, int n, int d, int keep, double **X, double *Y)
 /* forward(tag, 1, n, d, keep, X[n][d+1], Y[d+1]), m=1                      */
 { /* olvo 980729 general ec */
-  static double *x, *xp;
-  static int maxn;
+  static thread_local double *x, *xp;
+  static thread_local int maxn;
   double y;
   int rc = -1, i, k;
 
@@ -349,8 +349,8 @@ int reverse(short tag, int m, int n, int d, double ***Z, short **nz)
 /* reverse(tag, m, n, d, Z[p][n][d+1], nz[p][n]),
            If p and U are omitted they default to m and I                   */
 {
-  static int depax;
-  static double **I;
+  static thread_local int depax;
+  static thread_local double **I;
   if (m adolc_compsize depax) {
     if (depax)
       myfreeI2(depax, I);
diff --git a/ADOL-C/src/lie/adolc_lie_c.cpp b/ADOL-C/src/lie/adolc_lie_c.cpp
index c78b041..9754ddd 100644
--- a/ADOL-C/src/lie/adolc_lie_c.cpp
+++ b/ADOL-C/src/lie/adolc_lie_c.cpp
@@ -276,9 +276,9 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
   double *x = myalloc1(n);
   double *y = myalloc1(m);
 
-  static int depax_m, depax_n;
-  static double **In;
-  static double **Im;
+  static thread_local int depax_m, depax_n;
+  static thread_local double **In;
+  static thread_local double **Im;
 
   int i = 0, j = 0, l = 0, k = 0, rc = -1;
   double Fak = 1.0;
@@ -403,9 +403,9 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
 
   int i = 0, k = 0;
 
-  static int depax_m, depax_n;
-  static double **In;
-  static double **Im;
+  static thread_local int depax_m, depax_n;
+  static thread_local double **In;
+  static thread_local double **Im;
 
   for (i = 0; i < n; i++)
     X[i][0] = x0[i];
@@ -483,8 +483,8 @@ int lie_bracket(short int Tape_F, short int Tape_G, short int n, double *x0,
   int i, k;
 
   /* static identity matrix for hov_reverse  */
-  static int depax_n = 0;
-  static double **In = NULL;
+  static thread_local int depax_n = 0;
+  static thread_local double **In = NULL;
 
   for (i = 0; i < n; i++) {
     X[i][0] = x0[i];
-- 
2.43.0


From d58ad6ba435ba39df6ebe60a179a5a1901ab6bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:03 +0000
Subject: [PATCH 83/89] fix: descriptions of tapes of different threads are
 mixed

---
 ADOL-C/src/tapedoc/tapedoc.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index c8cf1cc..b6e9d0e 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -36,12 +36,12 @@ BEGIN_C_DECLS
 /*                                                         STATIC VARIABLES */
 
 /*--------------------------------------------------------------------------*/
-static short tag;
+static thread_local short tag;
 
-static int op_cnt;
-static size_t rev_op_cnt;
-static int pagelength;
-static FILE *fp;
+static thread_local int op_cnt;
+static thread_local size_t rev_op_cnt;
+static thread_local int pagelength;
+static thread_local FILE *fp;
 
 static constexpr std::string_view baseName{"tape_"};
 static constexpr std::string_view extension{".tex"};
-- 
2.43.0


From 137d714b6e4b2d949f55e8d9c423d67f55f9a968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:13 +0000
Subject: [PATCH 84/89] fix: patterns of traceless sparse Jacobians are shared
 by all threads

---
 ADOL-C/src/sparse/sparsedrivers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/sparse/sparsedrivers.cpp b/ADOL-C/src/sparse/sparsedrivers.cpp
index f1a7d5f..a2da65f 100644
--- a/ADOL-C/src/sparse/sparsedrivers.cpp
+++ b/ADOL-C/src/sparse/sparsedrivers.cpp
@@ -95,7 +95,7 @@ void extract(size_t wordIdx, size_t,
 } // namespace detail
 
 #include <adolc/adtl_indo.h>
-SparseJacInfos sJInfos;
+thread_local SparseJacInfos sJInfos;
 namespace adtl_indo {
 
 int ADOLC_get_sparse_jacobian(func_ad<::adtl::adouble> *const fun,
-- 
2.43.0


From 952077bda7d891796df6f8655cfcb4bab034f4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:24 +0000
Subject: [PATCH 85/89] fix: tensors set up by different threads use one
 position

---
 ADOL-C/src/drivers/taylor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index a39e453..1a7903f 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -52,7 +52,7 @@ void freecoefflist(size_t dim, struct item *coeff_list) {
 
 /****************************************************************************/
 /*                                            ALLOCATE/DEALLOCATE COEFFLIST */
-double *tensoriglob;
+thread_local double *tensoriglob;
 
 /*--------------------------------------------------------------------------*/
 /* Allocate space for symmetric derivative tensors
-- 
2.43.0


From b3b497d7d495287e932c6e57822eb94c6c1a6f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:57 +0000
Subject: [PATCH 86/89] fix: run-time selected bit pattern propagation does not
 compile and is not built

---
 ADOL-C/include/adolc/sparse/sparse_fo_rev.h | 1 +
 ADOL-C/src/sparse/CMakeLists.txt            | 1 +
 ADOL-C/src/sparse/sparse_fo_rev.cpp         | 8 ++++----
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/include/adolc/sparse/sparse_fo_rev.h b/ADOL-C/include/adolc/sparse/sparse_fo_rev.h
index 627244a..6a1a052 100644
--- a/ADOL-C/include/adolc/sparse/sparse_fo_rev.h
+++ b/ADOL-C/include/adolc/sparse/sparse_fo_rev.h
@@ -78,6 +78,7 @@ ADOLC_API int forward(short tag, int m, int n, int p, double *x,
       return int_forward_tight(tag, m, n, p, x, X.data(), y, Y.data());
     else
       ADOLCError::fail(ADOLCError::ErrorType::SPARSE_NO_BP, CURRENT_LOCATION);
+    return -1;
 
   } else if constexpr (CFM == ControlFlowMode::Safe)
     return int_forward_safe(tag, m, n, p, X.data(), Y.data());
diff --git a/ADOL-C/src/sparse/CMakeLists.txt b/ADOL-C/src/sparse/CMakeLists.txt
index bf90831..8f91e6b 100644
--- a/ADOL-C/src/sparse/CMakeLists.txt
+++ b/ADOL-C/src/sparse/CMakeLists.txt
@@ -1,3 +1,4 @@
 target_sources(adolc PRIVATE
+  sparse_fo_rev.cpp
   sparsedrivers_c.cpp
   sparsedrivers.cpp)
\ No newline at end of file
diff --git a/ADOL-C/src/sparse/sparse_fo_rev.cpp b/ADOL-C/src/sparse/sparse_fo_rev.cpp
index 75ed707..21005d2 100644
--- a/ADOL-C/src/sparse/sparse_fo_rev.cpp
+++ b/ADOL-C/src/sparse/sparse_fo_rev.cpp
@@ -34,11 +34,11 @@ int ADOLC::Sparse::reverse(short tag, int m, int n, int q, bitword_t **U,
   std::vector<bitword_t *> Zv(Z, Z + q);
 
   if (mode == 0)
-    ADOLC::Sparse::reverse<ADOLC::Sparse::ControlFlowMode::Safe>(tag, m, n, q,
-                                                                 &Uv, &Zv);
+    return ADOLC::Sparse::reverse<ADOLC::Sparse::ControlFlowMode::Safe>(
+        tag, m, n, q, Uv, Zv);
   else if (mode == 1)
-    ADOLC::Sparse::reverse<ADOLC::Sparse::ControlFlowMode::Tight>(tag, m, n, q,
-                                                                  &Uv, &Zv);
+    return ADOLC::Sparse::reverse<ADOLC::Sparse::ControlFlowMode::Tight>(
+        tag, m, n, q, Uv, Zv);
   else
     ADOLCError::fail(ADOLCError::ErrorType::SPARSE_BAD_MODE, CURRENT_LOCATION);
   return -1;
-- 
2.43.0


From de43912235a4011b57252eeb2042e53f55f33827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:31 +0000
Subject: [PATCH 87/89] fix: conditional assignments to vector elements in the
 tight sparsity modes

The bit pattern mode read the recorded condition twice, so that every value
read afterwards was another one's, and wrote past the pattern of the result.
The index domain mode did not assign the value of the one-sided forms.
---
 ADOL-C/src/uni5_for.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index dbc6d26..ef0c122 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5238,8 +5238,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-        coval = tape.get_val_f();
-
         if (dp_T0[arg] > 0)
           FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
         else
@@ -5256,7 +5254,6 @@ int hov_forward(
             MINDEC(ret_c, 0);
           dp_T0[res] = dp_T0[arg2];
         }
-        FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC | TARG2_INC;
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
         if (dp_T0[arg] > 0)
@@ -5337,8 +5334,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-        coval = tape.get_val_f();
-
         if (dp_T0[arg] >= 0)
           FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
         else
@@ -5353,7 +5348,6 @@ int hov_forward(
             MINDEC(ret_c, 2);
           dp_T0[res] = dp_T0[arg2];
         }
-        FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC | TARG2_INC;
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
         if (dp_T0[arg] >= 0)
@@ -5397,13 +5391,18 @@ int hov_forward(
       /* olvo 980924 changed order to allow reflexive ops */
 #if defined(_INDO_)
       if (dp_T0[arg] > 0) {
+        if (coval <= 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
+
 #if defined(_INDOPRO_)
         copy_index_domain(res, arg1, ind_dom);
 #endif
 #if defined(_NONLIND_)
         arg_index[res] = arg_index[arg1];
 #endif
-      }
+      } else if (dp_T0[arg] == 0)
+        MINDEC(ret_c, 0);
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       ASSIGN_T(Tres, TAYLOR_BUFFER[res])
@@ -5411,8 +5410,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
 
@@ -5457,6 +5454,10 @@ int hov_forward(
       /* olvo 980924 changed order to allow reflexive ops */
 #if defined(_INDO_)
       if (dp_T0[arg] >= 0) {
+        if (coval < 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
+
 #if defined(_INDOPRO_)
         copy_index_domain(res, arg1, ind_dom);
 #endif
@@ -5471,8 +5472,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
 
-- 
2.43.0


From 3f23af4ea52773ec65386a2ebab04e4ea08555b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:29 +0000
Subject: [PATCH 88/89] fix: reading an adouble from a stream does not link

---
 ADOL-C/include/adolc/adtb_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/adtb_types.h b/ADOL-C/include/adolc/adtb_types.h
index 0f505fe..35bd503 100644
--- a/ADOL-C/include/adolc/adtb_types.h
+++ b/ADOL-C/include/adolc/adtb_types.h
@@ -581,7 +581,7 @@ ADOLC_API inline void operator>>=(std::span<adouble> deps,
 }
 
 ADOLC_API std::ostream &operator<<(std::ostream &, const adouble &);
-ADOLC_API std::istream &operator>>(std::istream &, const adouble &);
+ADOLC_API std::istream &operator>>(std::istream &, adouble &);
 
 /**
  * ADOUBLE ARTIHEMTICS
-- 
2.43.0


From 624ae0c2aff5287408da5b44b6f896c7c67ee632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:29 +0000
Subject: [PATCH 89/89] fix: frexp of a temporary is not recorded

---
 ADOL-C/include/adolc/adtb_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/adtb_types.h b/ADOL-C/include/adolc/adtb_types.h
index 35bd503..3ae8b96 100644
--- a/ADOL-C/include/adolc/adtb_types.h
+++ b/ADOL-C/include/adolc/adtb_types.h
@@ -1026,7 +1026,7 @@ ADOLC_API inline adouble frexp(const adouble &a, int *exp) {
 }
 ADOLC_API inline adouble frexp(adouble &&a, int *exp) {
   const double coval = std::frexp(a.value(), exp);
-  a.value(coval);
+  a = coval;
   return a;
 }
 
-- 
2.43.0

