From 0fd9e54cf59b0d25642c1190fa462ccae5ffbf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 01/54] fix: CoeffMatrix2D move assignment releases the old
 buffer and survives self-move

---
 include/coeff_matrix_2d.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/coeff_matrix_2d.hpp b/include/coeff_matrix_2d.hpp
index 62605f5..5714632 100644
--- a/include/coeff_matrix_2d.hpp
+++ b/include/coeff_matrix_2d.hpp
@@ -416,12 +416,15 @@ public:
 
   /** Move Assignment operator */
   CoeffMatrix2D &operator=(CoeffMatrix2D &&mat) noexcept {
-    m_data = mat.m_data;
-    m_storage.__set_dimensions(mat.rows(), mat.cols());
-    _capacity = mat._capacity;
-    mat.m_data = nullptr;
-    mat.m_storage.__set_dimensions(0, 0);
-    mat._capacity = 0;
+    if (this != &mat) {
+      delete[] m_data;
+      m_data = mat.m_data;
+      m_storage.__set_dimensions(mat.rows(), mat.cols());
+      _capacity = mat._capacity;
+      mat.m_data = nullptr;
+      mat.m_storage.__set_dimensions(0, 0);
+      mat._capacity = 0;
+    }
     return *this;
   }
 
-- 
2.43.0


From 79550dff7906b2f4a20ddb6fce16cea09ddf7034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:52 +0000
Subject: [PATCH 02/54] fix: a Stokes set built with order 0 keeps order 0

---
 include/stokes_coefficients.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stokes_coefficients.hpp b/include/stokes_coefficients.hpp
index f2c3f1f..5ba9574 100644
--- a/include/stokes_coefficients.hpp
+++ b/include/stokes_coefficients.hpp
@@ -133,7 +133,7 @@ public:
   /** Constructor given degree, order, GM and radius R */
   StokesCoeffs(int n, int m=-1, double GM=::iers2010::GMe, double Re=::iers2010::Re)
       : _GM(GM), _Re(Re), _cnormalized(true), m_degree(n), 
-        m_order((m > 0) ? m : n), _Cnm(n + 1, n + 1), _Snm(n + 1, n + 1) {}
+        m_order((m >= 0) ? m : n), _Cnm(n + 1, n + 1), _Snm(n + 1, n + 1) {}
 
   /* @brief Resize to new degree/order, deleting currrent data.
    *
-- 
2.43.0


From c248c3224fb2445055dc7851c86186fcc4dc6067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:38 +0000
Subject: [PATCH 03/54] fix: scaling a degree-0 Stokes set scales its only
 coefficient

---
 include/stokes_coefficients.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/stokes_coefficients.hpp b/include/stokes_coefficients.hpp
index 5ba9574..2c6b284 100644
--- a/include/stokes_coefficients.hpp
+++ b/include/stokes_coefficients.hpp
@@ -199,10 +199,8 @@ public:
 
   /** scale the Cnm and Snm coefficients */
   void scale(double factor) noexcept {
-    if (m_degree) {
-      _Cnm.multiply(factor);
-      _Snm.multiply(factor);
-    }
+    _Cnm.multiply(factor);
+    _Snm.multiply(factor);
   }
 
   /** get the Cnm coefficient */
-- 
2.43.0


From 3bd4a6226c85775ad8e81adfdbb9c7e00d67dcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:49 +0000
Subject: [PATCH 04/54] fix: unpacking Stokes coefficients initialises the sine
 terms of order 0

---
 include/stokes_coefficients.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stokes_coefficients.hpp b/include/stokes_coefficients.hpp
index 2c6b284..3a50f62 100644
--- a/include/stokes_coefficients.hpp
+++ b/include/stokes_coefficients.hpp
@@ -282,6 +282,8 @@ public:
     int max_degree = anm.rows()-1;
     StokesCoeffs cs(max_degree, max_order);
     for (int m = 0; m <= max_degree; m++) {
+        /* not stored in anm */
+        cs.S(m, 0) = 0e0;
         for (int l=0; l<m; l++) {
           cs.S(m,l+1) = anm(l,m);
         // (1,1) -> (0,1) m = 1
-- 
2.43.0


From 34fa43833bf2f80881e9f8469496a1e99293838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:09 +0000
Subject: [PATCH 05/54] fix: Legendre recursion stays inside the triangle for
 order == degree and degree 0

---
 src/lib/gravity/forward_column_alf.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib/gravity/forward_column_alf.cpp b/src/lib/gravity/forward_column_alf.cpp
index 2e7731b..ab7069c 100644
--- a/src/lib/gravity/forward_column_alf.cpp
+++ b/src/lib/gravity/forward_column_alf.cpp
@@ -33,7 +33,8 @@ int dso::normalised_associated_legendre_functions(
 
   /* first two terms */
   P(0, 0) = 1e0;
-  P(1, 1) = std::sqrt(3e0) * u;
+  if (max_degree > 0)
+    P(1, 1) = std::sqrt(3e0) * u;
 
   /* loop through columns, m=[0,max_order) */
   for (int m = 0; m < max_order; m++) {
@@ -54,7 +55,8 @@ int dso::normalised_associated_legendre_functions(
   /* last column, m=max_order */
   int m = max_order;
   double *__restrict__ pmm = P.column(m);
-  pmm[1] = anm(m + 1, m) * t * pmm[0];
+  if (m < max_degree)
+    pmm[1] = anm(m + 1, m) * t * pmm[0];
   for (int n = m + 2; n <= max_degree; n++) {
     int k = n - m;
     pmm[k] = anm(n, m) * t * pmm[k - 1] - bnm(n, m) * pmm[k - 2];
@@ -77,7 +79,8 @@ int dso::normalised_associated_legendre_functions(
 
   /* first two terms */
   P(0, 0) = 1e0;
-  P(1, 1) = std::sqrt(3e0) * u;
+  if (max_degree > 0)
+    P(1, 1) = std::sqrt(3e0) * u;
 
   const double uinv = 1e0/u;
   /* loop through columns, m=[0,max_order) */
@@ -108,8 +111,10 @@ int dso::normalised_associated_legendre_functions(
   /* sectorial of derivative, n=m */
   dpmm[0] = m * (t/u) * pmm[0];
   /* first value from sectorial, n=m+1*/
-  pmm[1] = anm(m + 1, m) * t * pmm[0];
-  dpmm[1] = uinv * ((m+1)*t*pmm[1] - fnm(m+1,m)*pmm[0]);
+  if (m < max_degree) {
+    pmm[1] = anm(m + 1, m) * t * pmm[0];
+    dpmm[1] = uinv * ((m+1)*t*pmm[1] - fnm(m+1,m)*pmm[0]);
+  }
   for (int n = m + 2; n <= max_degree; n++) {
     int k = n - m;
     pmm[k] = anm(n, m) * t * pmm[k - 1] - bnm(n, m) * pmm[k - 2];
-- 
2.43.0


From d30a09add4f58829fc9d76ef40616b5588685aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:10 +0000
Subject: [PATCH 06/54] fix: Legendre recursion factors do not overflow int for
 degrees above 1000

---
 src/lib/gravity/forward_column_alf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/gravity/forward_column_alf.cpp b/src/lib/gravity/forward_column_alf.cpp
index ab7069c..268f363 100644
--- a/src/lib/gravity/forward_column_alf.cpp
+++ b/src/lib/gravity/forward_column_alf.cpp
@@ -3,17 +3,17 @@
 #include <cmath>
 
 namespace {
-inline double anm(int n, int m) noexcept {
+inline double anm(long n, long m) noexcept {
   return std::sqrt( (double)((2*n-1)*(2*n+1)) / (double)((n-m)*(n+m)) );
 }
 
-inline double bnm(int n, int m) noexcept {
+inline double bnm(long n, long m) noexcept {
   long b1 = (2*n+1)*(n+m-1)*(n-m-1);
   long b2 = (n-m)*(n+m)*(2*n-3);
   return std::sqrt( (double)b1 / (double)b2 );
 }
 
-inline double fnm(int n, int m) noexcept {
+inline double fnm(long n, long m) noexcept {
   long f1 = (n * n - m * m) * (2 * n + 1);
   long f2 = 2 * n - 1;
   return std::sqrt((double)f1 / (double)f2);
-- 
2.43.0


From 2dcded3265c351e257474981c7d7f69fc1a802ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:09 +0000
Subject: [PATCH 07/54] fix: Cunningham scratch matrices must hold degree+2,
 i.e. degree+3 rows

---
 include/gravity.hpp                           |  4 ++--
 .../sh_cunningham_normalized_gradient.cpp     | 20 +++++++++----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/gravity.hpp b/include/gravity.hpp
index 6a5f82a..3be1e71 100644
--- a/include/gravity.hpp
+++ b/include/gravity.hpp
@@ -136,11 +136,11 @@ int normalised_associated_legendre_functions(
  * @param[out] acc Acceleration in cartesian components in [m/s^2]
  * @param[out] gradient Gradient of acceleration in cartesian components
  * @param[in] W   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2).
+ *                matrix off dimensions at least (max_degree+3, max_degree+3).
  *                If not given, then the function will allocate and free the 
  *                required memmory.
  * @param[in] M   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2)
+ *                matrix off dimensions at least (max_degree+3, max_degree+3)
  *                If not given, then the function will allocate and free the 
  *                required memmory.
  * @return        Anything other than zero denotes an error.
diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index d349050..2adea1c 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -65,9 +65,9 @@ struct NormalizedLegendreFactors {
  * @param[out] acc Acceleration in cartesian components in [m/s^2]
  * @param[out] gradient Gradient of acceleration in cartesian components
  * @param[in] W   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2)
+ *                matrix off dimensions at least (max_degree+3, max_degree+3)
  * @param[in] M   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2)
+ *                matrix off dimensions at least (max_degree+3, max_degree+3)
  */
 int sh2gradient_cunningham_impl(
     const dso::StokesCoeffs &cs, const Eigen::Matrix<double, 3, 1> &r,
@@ -89,10 +89,10 @@ int sh2gradient_cunningham_impl(
   assert(cs.max_degree() >= cs.max_order());
   assert(max_degree <= cs.max_degree());
   assert(max_order <= cs.max_order());
-  assert(W.rows() >= max_degree + 2);
-  assert(W.cols() >= max_degree + 2);
-  assert(M.rows() >= max_degree + 2);
-  assert(M.cols() >= max_degree + 2);
+  assert(W.rows() >= max_degree + 3);
+  assert(W.cols() >= max_degree + 3);
+  assert(M.rows() >= max_degree + 3);
+  assert(M.cols() >= max_degree + 3);
 #endif
 
   /* Factors up to degree/order MAX_SIZE_FOR_ALF_FACTORS. Constructed only on
@@ -426,18 +426,18 @@ int dso::sh2gradient_cunningham(
   int delete_mem_pool[] = {0, 0};
   if (!W) {
     W = new dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise>(
-        max_degree + 2, max_degree + 2);
+        max_degree + 3, max_degree + 3);
     delete_mem_pool[0] = 1;
   }
   if (!M) {
     M = new dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise>(
-        max_degree + 2, max_degree + 2);
+        max_degree + 3, max_degree + 3);
     delete_mem_pool[1] = 1;
   }
 
   /* check scratch space */
-  if ((W->rows() < max_degree + 2) || (W->cols() < max_degree + 2) ||
-      (M->rows() < max_degree + 2) || (M->cols() < max_degree + 2)) {
+  if ((W->rows() < max_degree + 3) || (W->cols() < max_degree + 3) ||
+      (M->rows() < max_degree + 3) || (M->cols() < max_degree + 3)) {
     fprintf(stderr,
             "[ERROR] Invalid size of mem pool for spherical harmonics "
             "expansion! (traceback: %s)\n",
-- 
2.43.0


From d9a7c9cd4c297835e26af9d288e30301d08a1f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:09 +0000
Subject: [PATCH 08/54] fix: Cunningham recursion fills column order+2 when
 order < degree

---
 src/lib/gravity/sh_cunningham_normalized_gradient.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index 2adea1c..053f2d8 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -152,6 +152,16 @@ int sh2gradient_cunningham_impl(
       const int m = order + 2;
       M(m, m) = F.f1(m, m) * (x * M(m - 1, m - 1) - y * W(m - 1, m - 1));
       W(m, m) = F.f1(m, m) * (y * M(m - 1, m - 1) + x * W(m - 1, m - 1));
+
+      /* if order < degree, the gradient needs the rest of this column too */
+      if (m < degree + 2) {
+        M(m + 1, m) = F.f1(m + 1, m) * z * M(m, m);
+        W(m + 1, m) = F.f1(m + 1, m) * z * W(m, m);
+      }
+      for (int n = m + 2; n <= degree + 2; n++) {
+        M(n, m) = F.f1(n, m) * z * M(n - 1, m) + F.f2(n, m) * rr * M(n - 2, m);
+        W(n, m) = F.f1(n, m) * z * W(n - 1, m) + F.f2(n, m) * rr * W(n - 2, m);
+      }
     }
 
     //M.multiply(1e-280);
-- 
2.43.0


From 48f91e06ac846ff29c39cef4f5ec11337a94aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:09 +0000
Subject: [PATCH 09/54] fix: release locally allocated scratch space when the
 other one is too small

---
 src/lib/gravity/sh_cunningham_normalized_gradient.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index 053f2d8..dcc2a74 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -452,6 +452,10 @@ int dso::sh2gradient_cunningham(
             "[ERROR] Invalid size of mem pool for spherical harmonics "
             "expansion! (traceback: %s)\n",
             __func__);
+    if (delete_mem_pool[0])
+      delete W;
+    if (delete_mem_pool[1])
+      delete M;
     return 1;
   }
 
-- 
2.43.0


From c5404cb4a54b85f186c5c3a220b417d9f4b3765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:09 +0000
Subject: [PATCH 10/54] fix: expansions beyond the Legendre factor tables
 return an error instead of reading past them

---
 src/lib/gravity/sh_cunningham_normalized_gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index dcc2a74..ce253b0 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -82,7 +82,7 @@ int sh2gradient_cunningham_impl(
             "[ERROR] (Static) Size for NormalizedLegendreFactors must be "
             "augmented to perform computation (traceback: %s)\n",
             __func__);
-    assert(false);
+    return 1;
   }
 
 #ifdef DEBUG
-- 
2.43.0


From d66a7d3796c9f8a53f7dd2275db9a06073617052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:20 +0000
Subject: [PATCH 11/54] fix: order-1 terms are left out of an expansion of
 order 0

---
 src/lib/gravity/sh_cunningham_normalized_gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index ce253b0..b3cc013 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -260,7 +260,7 @@ int sh2gradient_cunningham_impl(
   } /* loop over m */
 
   /* order m = 1 (begin summation from smaller terms) */
-  for (int n = degree; n >= 1; --n) {
+  for (int n = degree; n >= 1 && order >= 1; --n) {
     const int m = 1;
     {
       /* acceleration
-- 
2.43.0


From d26dce95e82fe8425734a0f5b1620553d5f895c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:30 +0000
Subject: [PATCH 12/54] fix: rates of the lunisolar arguments are the
 derivatives of their polynomials

---
 include/fundarg.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/fundarg.hpp b/include/fundarg.hpp
index 1dda1fd..40784fa 100644
--- a/include/fundarg.hpp
+++ b/include/fundarg.hpp
@@ -75,7 +75,8 @@ inline double fal03(double t) noexcept {
 inline double dfal03(double t) noexcept {
   const double a =
       dso::sec2rad(1717915923.2178e0 +
-                   t * (31.8792e0 + t * (0.051635e0 + t * (-0.00024470e0))));
+                   t * (2e0 * 31.8792e0 +
+                        t * (3e0 * 0.051635e0 + t * (4e0 * -0.00024470e0))));
   return a;
 }
 
@@ -105,7 +106,8 @@ inline double falp03(double t) noexcept {
 inline double dfalp03(double t) noexcept {
   const double a =
       dso::sec2rad(129596581.0481e0 +
-                   t * (-0.5532e0 + t * (0.000136e0 + t * (-0.00001149e0))));
+                   t * (2e0 * -0.5532e0 +
+                        t * (3e0 * 0.000136e0 + t * (4e0 * -0.00001149e0))));
   return a;
 }
 
@@ -136,7 +138,8 @@ inline double faf03(double t) noexcept {
 inline double dfaf03(double t) noexcept {
   const double a =
       dso::sec2rad(1739527262.8478e0 +
-                   t * (-12.7512e0 + t * (-0.001037e0 + t * (0.00000417e0))));
+                   t * (2e0 * -12.7512e0 +
+                        t * (3e0 * -0.001037e0 + t * (4e0 * 0.00000417e0))));
   return a;
 }
 
@@ -170,7 +173,8 @@ inline double fad03(double t) noexcept {
 inline double dfad03(double t) noexcept {
   const double a =
       dso::sec2rad(1602961601.2090e0 +
-                   t * (-6.3706e0 + t * (0.006593e0 + t * (-0.00003169e0))));
+                   t * (2e0 * -6.3706e0 +
+                        t * (3e0 * 0.006593e0 + t * (4e0 * -0.00003169e0))));
   return a;
 }
 
@@ -201,7 +205,8 @@ inline double faom03(double t) noexcept {
 inline double dfaom03(double t) noexcept {
   const double a =
       dso::sec2rad(-6962890.5431e0 +
-                   t * (7.4722e0 + t * (0.007702e0 + t * (-0.00005939e0))));
+                   t * (2e0 * 7.4722e0 +
+                        t * (3e0 * 0.007702e0 + t * (4e0 * -0.00005939e0))));
   return a;
 }
 
@@ -367,7 +372,7 @@ inline double faf03(const dso::MjdEpoch &tt) noexcept {
 
 /* @brief Overload of dfaf03 using a MjdEpoch */
 inline double dfaf03(const dso::MjdEpoch &tt) noexcept {
-  return iers2010::faf03(tt.jcenturies_sinceJ2000());
+  return iers2010::dfaf03(tt.jcenturies_sinceJ2000());
 }
 
 /* @brief Overload of fad03 using a MjdEpoch */
-- 
2.43.0


From 0726b6b6a87d4d591b9801cbdce550e0197a0f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:30 +0000
Subject: [PATCH 13/54] fix: the GMST rate is the derivative of GMST (ERA rate
 was doubled, polynomial not differentiated)

---
 src/lib/iau/dgmst.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/iau/dgmst.cpp b/src/lib/iau/dgmst.cpp
index 47e1829..4d34bff 100644
--- a/src/lib/iau/dgmst.cpp
+++ b/src/lib/iau/dgmst.cpp
@@ -6,12 +6,14 @@ double dso::dgmst(const dso::MjdEpoch &tt) noexcept {
   const double b =
       dso::sec2rad(
           4612.156534e0 +
-          (1.3915817e0 +
-           (-0.00000044e0 + (-0.000029956e0 + (-0.0000000368e0) * t) * t) * t) *
+          (2e0 * 1.3915817e0 +
+           (3e0 * -0.00000044e0 +
+            (4e0 * -0.000029956e0 + (5e0 * -0.0000000368e0) * t) * t) *
+               t) *
               t) /
       36525e0;
   constexpr const double t2pi = dso::detail::AngleUnitTraits<
       dso::detail::AngleUnit::Radians>::full_circle();
-  const double a = t2pi * 2e0 * 1.00273781191135448;
+  const double a = t2pi * 1.00273781191135448;
   return a + b;
 }
-- 
2.43.0


From 8d17a1cc100c6d42dd41081080ca7673b4693a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:37 +0000
Subject: [PATCH 14/54] fix: the largest t-term of CIP X had lost its last
 digit (205833.11 uas)

---
 src/lib/iau/xcip06a.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/iau/xcip06a.cpp b/src/lib/iau/xcip06a.cpp
index 6ca78eb..61759ae 100644
--- a/src/lib/iau/xcip06a.cpp
+++ b/src/lib/iau/xcip06a.cpp
@@ -6283,7 +6283,7 @@ constexpr const std::array<XYCipSeriesData, 253> X1Series = {
       {+0, +0, +2, -2, +2, +0, +0, +0, +0, +0, +0, +0, +0, +0}},
      /* 1307*/
      {-3.309730000e+03,
-      +2.058331e+05,
+      +2.058331100e+05,
       {+0, +0, +0, +0, +1, +0, +0, +0, +0, +0, +0, +0, +0,
        +0}}}}; /* X1Series */
 
-- 
2.43.0


From a2e38cf4ef01da99f964509015fad7e09608129e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:09 +0000
Subject: [PATCH 15/54] fix: ocean pole tide factors overflow their buffer at
 degree 360

---
 src/lib/pole_tide/ocean_pole_tide_geopotential.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp b/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
index 6a24af7..c910691 100644
--- a/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
+++ b/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
@@ -218,7 +218,7 @@ int dso::OceanPoleTide::stokes_coeffs(const dso::MjdEpoch &t, double xp,
   const double freal = m1 * g2_real + m2 * g2_imag;
   const double fimag = m2 * g2_real - m1 * g2_imag;
 
-  double knfac_arr[pole_tide_details::MAX_DEGREE_DESAI_2002];
+  double knfac_arr[pole_tide_details::MAX_DEGREE_DESAI_2002 + 1];
   double *__restrict__ knfac = &(knfac_arr[0]);
 
   /* order: m = 0; compute kn factors */
-- 
2.43.0


From daeeb677e1441a726abf29f5c565b36dd22afda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:09 +0000
Subject: [PATCH 16/54] fix: ocean pole tide keeps (rescaled) coefficients of
 an earlier call above the requested degree/order

---
 src/lib/pole_tide/ocean_pole_tide_geopotential.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp b/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
index c910691..d198f78 100644
--- a/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
+++ b/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
@@ -203,6 +203,9 @@ int dso::OceanPoleTide::stokes_coeffs(const dso::MjdEpoch &t, double xp,
     return 1;
   }
 
+  /* coefficients above the requested degree/order must not keep old values */
+  mcs.clear();
+
   const double Re = mcs.Re();
   const double GM = mcs.GM();
 
-- 
2.43.0


From 85afe7dc658cd88034933eaa749f5d2cf38656f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:09 +0000
Subject: [PATCH 17/54] fix: define match_ocean_tide_wave in the namespace it
 is declared in

---
 src/lib/doodson/match_tadal_constituents.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/doodson/match_tadal_constituents.cpp b/src/lib/doodson/match_tadal_constituents.cpp
index c4cccbd..07dcfe1 100644
--- a/src/lib/doodson/match_tadal_constituents.cpp
+++ b/src/lib/doodson/match_tadal_constituents.cpp
@@ -7,7 +7,7 @@
 #endif
 
 const dso::detail::TidalConstituentArrayEntry *
-match_ocean_tide_wave(const char *wave) noexcept {
+dso::detail::match_ocean_tide_wave(const char *wave) noexcept {
   for (const auto &w : dso::detail::OceanicTidalHarmonics) {
     const char *a = w.name();
     const char *b = wave;
@@ -18,7 +18,7 @@ match_ocean_tide_wave(const char *wave) noexcept {
 }
 
 const dso::detail::TidalConstituentArrayEntry *
-match_ocean_tide_wave(const dso::DoodsonConstituent &wave) noexcept {
+dso::detail::match_ocean_tide_wave(const dso::DoodsonConstituent &wave) noexcept {
   for (const auto &w : dso::detail::OceanicTidalHarmonics) {
     if (wave == w._d) return &w;
   }
-- 
2.43.0


From fcb07d7f292da02af7d42990b71290e2d1b8e73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:09 +0000
Subject: [PATCH 18/54] fix: angular speed of the L2 wave was that of N2

---
 include/doodson.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/doodson.hpp b/include/doodson.hpp
index f25a0ec..8c5a3f4 100644
--- a/include/doodson.hpp
+++ b/include/doodson.hpp
@@ -413,7 +413,7 @@ constexpr static std::array<TidalConstituentArrayEntry, 18>
           28.439729500000, 0.00, "N2"},
           /* extraced from [3] Table 5.1 */
          {/*265.455*/ DoodsonConstituent(2, 1, 0, -1, 0, 0, +2.0e+00), 
-          28.439729500000, 0.00, "L2"},
+          29.528478900000, 0.00, "L2"},
          {/*381.555*/ DoodsonConstituent(3, 3, -4, 0, 0, 0, +0.0e+00),
           44.958935590000, 0.00, "T3"},
           /* S3: the pifactor here is found by trial-and-error using COST-G
-- 
2.43.0


From 0f1e3fe7f342316152ecc05095fb8b81b8348eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:09 +0000
Subject: [PATCH 19/54] fix: name of a tidal wave stays null-terminated when
 truncated

---
 include/doodson.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/doodson.hpp b/include/doodson.hpp
index 8c5a3f4..44ba8bb 100644
--- a/include/doodson.hpp
+++ b/include/doodson.hpp
@@ -507,7 +507,7 @@ public:
   TidalWave(const DoodsonConstituent &d, double per=0, double hf=0,
             const char *name=nullptr) noexcept
       : _d(d), _per(per), _hf(hf) {
-    if (name) std::strncpy(_n, name, detail::MAX_CHARS_TIDAL_WAVE);
+    if (name) std::strncpy(_n, name, detail::MAX_CHARS_TIDAL_WAVE - 1);
   }
 }; /* TidalWave */
 
-- 
2.43.0


From 5d6d808f5f4b250cb70c46dea3d46d0329ee02e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:09 +0000
Subject: [PATCH 20/54] fix: refuse non-digit characters in a Doodson number

---
 src/lib/doodson/resolve_iers2010_doodson_string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/doodson/resolve_iers2010_doodson_string.cpp b/src/lib/doodson/resolve_iers2010_doodson_string.cpp
index db95d02..76089f9 100644
--- a/src/lib/doodson/resolve_iers2010_doodson_string.cpp
+++ b/src/lib/doodson/resolve_iers2010_doodson_string.cpp
@@ -23,7 +23,7 @@ dso::DoodsonConstituent dso::resolve_iers10_doodson_string(const char *cstr) {
   ints[5] = (*str++ - '0') - 5;
 
   for (int i = 0; i < 6; i++)
-    if (ints[i] < -9 || ints[i] > 9)
+    if (ints[i] < (i ? -5 : 0) || ints[i] > (i ? 4 : 9))
       error += 1;
 
   if (error) {
-- 
2.43.0


From fb9c422583c4819f7e031e57076fd0ff4a7a748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 21/54] fix: EOP interpolation on a copied series read the
 records of the original

---
 src/lib/eop/approx_dut1.cpp            | 15 ++++-----------
 src/lib/eop/lagrange_interpolation.cpp | 15 ++++-----------
 2 files changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/lib/eop/approx_dut1.cpp b/src/lib/eop/approx_dut1.cpp
index 31ab45a..4a06759 100644
--- a/src/lib/eop/approx_dut1.cpp
+++ b/src/lib/eop/approx_dut1.cpp
@@ -3,17 +3,10 @@
 dso::EopSeries::EopInterpolationResult
 dso::EopSeries::approx_dut1(const dso::MjdEpoch &t,
                             double &dut1) const noexcept {
-  /* find a matching interval (try for last used iterator first) */
-  auto it = last_it;
-  {
-    if (last_it != mvec.begin() && last_it != mvec.end()) {
-      if (!((last_it - 1)->t() >= t && last_it->t() < t)) {
-        it = this->upper_bound(t);
-      }
-    } else {
-      it = this->upper_bound(t);
-    }
-  }
+  /* find a matching interval (last_it is not dereferenced: it may refer to the
+   * records of another instance, if this series is a copy)
+   */
+  auto it = this->upper_bound(t);
   last_it = it;
 
   /* given date is prior to first date in EOP series */
diff --git a/src/lib/eop/lagrange_interpolation.cpp b/src/lib/eop/lagrange_interpolation.cpp
index 83b631c..f641478 100644
--- a/src/lib/eop/lagrange_interpolation.cpp
+++ b/src/lib/eop/lagrange_interpolation.cpp
@@ -7,17 +7,10 @@ dso::EopSeries::interpolate(const dso::MjdEpoch &t, dso::EopRecord &eop,
                             int degree) const noexcept {
   assert(degree <= MAX_POLY_INTERPOLATION_DEGREE);
 
-  /* find a matching interval (try for last used iterator first) */
-  auto it = last_it;
-  {
-    if (last_it != mvec.begin() && last_it != mvec.end()) {
-      if (!((last_it - 1)->t() >= t && last_it->t() < t)) {
-        it = this->upper_bound(t);
-      }
-    } else {
-      it = this->upper_bound(t);
-    }
-  }
+  /* find a matching interval (last_it is not dereferenced: it may refer to the
+   * records of another instance, if this series is a copy)
+   */
+  auto it = this->upper_bound(t);
   last_it = it;
 
   /* given date is prior to first date in EOP series */
-- 
2.43.0


From 65fea66e15fa8db7b2f28a0776a0bd141c708f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:57 +0000
Subject: [PATCH 22/54] fix: FCN uncertainty shrank (and became negative) for
 dates before the first coefficient

---
 src/lib/free_core_nutation/lambert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/free_core_nutation/lambert.cpp b/src/lib/free_core_nutation/lambert.cpp
index d29d48e..37f5e3e 100644
--- a/src/lib/free_core_nutation/lambert.cpp
+++ b/src/lib/free_core_nutation/lambert.cpp
@@ -69,7 +69,7 @@ dso::lambert_fcn(const dso::MjdEpoch &t,
 #endif
       const auto it = *lvec.begin();
       const double dt =
-          t.diff<dso::DateTimeDifferenceType::FractionalDays>(it.t).days();
+          it.t.diff<dso::DateTimeDifferenceType::FractionalDays>(t).days();
       axc[0] = it.xc();
       axs[0] = it.xs();
       ayc[0] = it.yc();
-- 
2.43.0


From 6841d8312a5f05aee4fc62f3f278134cbeb0df6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:45 +0000
Subject: [PATCH 23/54] fix: move assignment of OceanTide from an instance
 without admittance left a released model in use

---
 include/ocean_tide.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ocean_tide.hpp b/include/ocean_tide.hpp
index a205be1..217bb5b 100644
--- a/include/ocean_tide.hpp
+++ b/include/ocean_tide.hpp
@@ -193,11 +193,11 @@ public:
 
   /** @brief Move assignment operator */
   OceanTide &operator=(OceanTide &&ot) noexcept {
-    matlas = std::move(ot.matlas);
-    mcs = std::move(ot.mcs);
-    if (gmodel)
-      delete gmodel;
-    if (ot.gmodel) {
+    if (this != &ot) {
+      matlas = std::move(ot.matlas);
+      mcs = std::move(ot.mcs);
+      if (gmodel)
+        delete gmodel;
       gmodel = ot.gmodel;
       ot.gmodel = nullptr;
     }
-- 
2.43.0


From 9536c8bea8a59f03c1e5bc34674b12fbf4403210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:02 +0000
Subject: [PATCH 24/54] fix: names of 64 characters or more overflowed the name
 of ocean and atmospheric tide models

---
 include/atmospheric_tides.hpp | 12 ++++++++----
 include/ocean_tide.hpp        | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/atmospheric_tides.hpp b/include/atmospheric_tides.hpp
index a724e1d..c8bd13b 100644
--- a/include/atmospheric_tides.hpp
+++ b/include/atmospheric_tides.hpp
@@ -87,8 +87,10 @@ public:
 
   /** @brief Constructor, optionally using a model name (no waves added). */
   AtmosphericTide(const char *name=nullptr):matlas() {
-    if (name)
-      std::strcpy(matlas.name(), name);
+    if (name) {
+      std::strncpy(matlas.name(), name, TideAtlas::NAME_MAX_CHARS - 1);
+      matlas.name()[TideAtlas::NAME_MAX_CHARS - 1] = '\0';
+    }
   }
 
   /** @brief Constructor, using an atlas and optionally a model name. */
@@ -98,8 +100,10 @@ public:
     int max_degree = matlas.max_atlas_degree(max_order);
     if (max_order < max_degree)
       mcs.resize(max_degree, max_order);
-    if (name)
-      std::strcpy(matlas.name(), name);
+    if (name) {
+      std::strncpy(matlas.name(), name, TideAtlas::NAME_MAX_CHARS - 1);
+      matlas.name()[TideAtlas::NAME_MAX_CHARS - 1] = '\0';
+    }
   }
   
   /** @brief Max degree of the model (as in mcs) */
diff --git a/include/ocean_tide.hpp b/include/ocean_tide.hpp
index 217bb5b..b0458f7 100644
--- a/include/ocean_tide.hpp
+++ b/include/ocean_tide.hpp
@@ -135,8 +135,10 @@ public:
     int max_degree = matlas.max_atlas_degree(max_order);
     if (max_order < max_degree)
       mcs.resize(max_degree, max_order);
-    if (name)
-      std::strcpy(matlas.name(), name);
+    if (name) {
+      std::strncpy(matlas.name(), name, TideAtlas::NAME_MAX_CHARS - 1);
+      matlas.name()[TideAtlas::NAME_MAX_CHARS - 1] = '\0';
+    }
   }
 
   /** @brief Constructor given an atlas, a GroopsTideModel (for admittance) and 
@@ -157,8 +159,10 @@ public:
     int max_degree = matlas.max_atlas_degree(max_order);
     if (max_order < max_degree)
       mcs.resize(max_degree, max_order);
-    if (name)
-      std::strcpy(matlas.name(), name);
+    if (name) {
+      std::strncpy(matlas.name(), name, TideAtlas::NAME_MAX_CHARS - 1);
+      matlas.name()[TideAtlas::NAME_MAX_CHARS - 1] = '\0';
+    }
   }
 
   /** @brief Destructor; deletes GroopsTideModel if any. */
-- 
2.43.0


From 5e6743e239e76f3ca99665ca41534015682b1b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:48 +0000
Subject: [PATCH 25/54] fix: node of an index in a grid with leading x axis

The index of a node is xi * (number of y points) + yi, hence yi is what
remains after xi rows of y points; non-square grids returned wrong or
out-of-range nodes.
---
 include/grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index 777c8f7..f0863e4 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -84,7 +84,7 @@ public:
   Node xyindex2node(long index) const noexcept {
     if constexpr (LeadingAxis == GridAxis::X) {
       long xi = index / mypts;
-      long yi = index - xi * mxpts;
+      long yi = index - xi * mypts;
       return Node{xi * mxstep + mxstart, yi * mystep + mystart};
     } else {
       int yi = index / mxpts;
-- 
2.43.0


From 5a2aa55a5961dd5adc368a2380bdf5e3bd6a476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:48 +0000
Subject: [PATCH 26/54] fix: points outside a grid have no surrounding nodes

surrounding_nodes() set all indexes to -1 for points out of range, but
then went on to compute neighbours of index -1, returning indexes of
unrelated (even valid) nodes.
---
 include/grid.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index f0863e4..92d2bef 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -96,8 +96,10 @@ public:
   void surrounding_nodes(double x, double y, long &idx_bl, long &idx_br,
                          long &idx_tl, long &idx_tr) const noexcept {
     idx_bl = line(x, y);
-    if (idx_bl < 0)
+    if (idx_bl < 0) {
       idx_bl = idx_br = idx_tl = idx_tr = -1;
+      return;
+    }
     surrounding_nodes(idx_bl, idx_br, idx_tl, idx_tr);
   }
 
-- 
2.43.0


From 6ba9e6e7f5d85720c5a3db1340148ff083e09240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:39 +0000
Subject: [PATCH 27/54] fix: top right node of a cell in a grid with leading x
 axis

It is one after the bottom right node; it was computed as one after the
top left node, i.e. a node of the same column.
---
 include/grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index 92d2bef..5db74c4 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -48,7 +48,7 @@ private:
     if constexpr (LeadingAxis == GridAxis::X) {
       idx_br = idx_bl + mypts;
       idx_tl = idx_bl + 1;
-      idx_tr = idx_tl + 1;
+      idx_tr = idx_br + 1;
     } else {
       idx_br = idx_bl + 1;
       idx_tl = idx_bl + mxpts;
-- 
2.43.0


From d818c48a77acb0d614fca5fd9d5855b1cc448b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:05 +0000
Subject: [PATCH 28/54] fix: load a kernel when another one whose name it
 begins is loaded

load_if_unloaded() compared only the first strlen(kernel) characters, so
that e.g. 'de421.bsp' was taken for loaded (and silently not loaded) once
'de421.bsp.part' or 'de421.bsp2' was.
---
 src/lib/planets/kernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/planets/kernel.cpp b/src/lib/planets/kernel.cpp
index 41f04f1..69bc498 100644
--- a/src/lib/planets/kernel.cpp
+++ b/src/lib/planets/kernel.cpp
@@ -23,7 +23,7 @@ int dso::cspice::load_if_unloaded(const char *kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "ALL", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, kernel, std::strlen(kernel)))
+      if (!std::strcmp(file, kernel))
         return 0;
     }
   }
-- 
2.43.0


From a762b6a90f185ffaa5eeaf2c38c99e4f350a58f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:09 +0000
Subject: [PATCH 29/54] fix: refuse ICGEM data lines whose degree or order
 cannot index a coefficient, instead of storing through them

---
 src/lib/icgem/icgemio_read_data_v1.cpp | 5 ++++-
 src/lib/icgem/icgemio_read_data_v2.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/icgem/icgemio_read_data_v1.cpp b/src/lib/icgem/icgemio_read_data_v1.cpp
index 6bc8e01..4dbcb75 100644
--- a/src/lib/icgem/icgemio_read_data_v1.cpp
+++ b/src/lib/icgem/icgemio_read_data_v1.cpp
@@ -57,7 +57,10 @@ int dso::Icgem::parse_data_v1(int l, int k, const Icgem::Datetime &t,
    */
   while (fin.getline(line, max_data_line) && !error) {
     error += resolve_icgem_data_line_v1(line, err, entry);
-    {
+    /* degree and order must index a coefficient */
+    if (!error && (entry.order < 0 || entry.order > entry.degree))
+      ++error;
+    if (!error) {
       double C=0e0,S=0e0;
       if (entry.degree <= n && entry.order <= m) {
         /* set maximum degree/order */
diff --git a/src/lib/icgem/icgemio_read_data_v2.cpp b/src/lib/icgem/icgemio_read_data_v2.cpp
index ea10fbc..9710969 100644
--- a/src/lib/icgem/icgemio_read_data_v2.cpp
+++ b/src/lib/icgem/icgemio_read_data_v2.cpp
@@ -55,7 +55,10 @@ int dso::Icgem::parse_data_v2(int l, int k, const Icgem::Datetime &t,
   /* keep reading coefficients */
   while (fin.getline(line, max_data_line) && !error) {
     error += resolve_icgem_data_line_v2(line, err, entry);
-    {
+    /* degree and order must index a coefficient */
+    if (!error && (entry.order < 0 || entry.order > entry.degree))
+      ++error;
+    if (!error) {
       int interval_ok = (t >= entry.t0 && t < entry.t1);
       if (interval_ok && entry.degree <= n && entry.order <= m) {
         /* set maximum degree and order collected */
-- 
2.43.0


From 2b9fd029ae22b5d2393bc634724a655f13429933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:09 +0000
Subject: [PATCH 30/54] fix: ICGEM v2 periodic terms read through an
 uninitialised pointer when their dates are malformed

---
 src/lib/icgem/resolve_igcem_data_line_v2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/icgem/resolve_igcem_data_line_v2.cpp b/src/lib/icgem/resolve_igcem_data_line_v2.cpp
index 03367bb..ee974a7 100644
--- a/src/lib/icgem/resolve_igcem_data_line_v2.cpp
+++ b/src/lib/icgem/resolve_igcem_data_line_v2.cpp
@@ -179,7 +179,7 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
     /* skip error-related cols */
     c = skip_cols(c, err_cols);
     /* resolve t0 at pre-last column */
-    const char *ptr;
+    const char *ptr = c;
     if (resolve_icgem_data_date_v2(skip_ws(c), entry.t0, ptr))
       ++error;
     /* resolve t1 at last column */
@@ -224,7 +224,7 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
     /* skip error-related cols */
     c = skip_cols(c, err_cols);
     /* resolve t0 at pre-last column */
-    const char *ptr;
+    const char *ptr = c;
     if (resolve_icgem_data_date_v2(skip_ws(c), entry.t0, ptr))
       ++error;
     /* resolve t1 at last column */
-- 
2.43.0


From 7ca74b1e5d8f7a75df8311e74158997bdde6a46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:09 +0000
Subject: [PATCH 31/54] fix: ICGEM v2 dates skipped any character (even the end
 of the string) where the dot belongs

---
 src/lib/icgem/resolve_igcem_data_date_v2.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/icgem/resolve_igcem_data_date_v2.cpp b/src/lib/icgem/resolve_igcem_data_date_v2.cpp
index 6a96919..2ea8094 100644
--- a/src/lib/icgem/resolve_igcem_data_date_v2.cpp
+++ b/src/lib/icgem/resolve_igcem_data_date_v2.cpp
@@ -22,7 +22,11 @@ int dso::resolve_icgem_data_date_v2(const char *line, dso::Icgem::Datetime &t,
   if (res.ec != std::errc{})
     ++error;
   /* one more char to skip the dot */
-  str = res.ptr + 1;
+  str = res.ptr;
+  if (*str == '.')
+    ++str;
+  else
+    ++error;
 
   res = std::from_chars(str, str + 2, ints[3]);
   if (res.ec != std::errc{})
-- 
2.43.0


From 49957548161237f40762d8309744f5f1088cca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:09 +0000
Subject: [PATCH 32/54] fix: error columns of an ICGEM file without the errors
 keyword were uninitialised

---
 include/icgemio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/icgemio.hpp b/include/icgemio.hpp
index 3a18384..4982836 100644
--- a/include/icgemio.hpp
+++ b/include/icgemio.hpp
@@ -78,7 +78,7 @@ private:
    *   both "calibrated_and_formal" 
    * errors are included
    */
-  ErrorModel _errors;
+  ErrorModel _errors{ErrorModel::No};
   /** gravitational constant times mass of the earth [m^3s^-2] */
   double _earth_gravity_constant{0e0};
   /** reference radius of the spherical harmonic development [m] */
-- 
2.43.0


From bac63f34177fa9a8fedf0d80a227f875c7225b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:09 +0000
Subject: [PATCH 33/54] fix: ICGEM header keywords matched any line that merely
 starts with their letters

---
 src/lib/icgem/icgemio_read_header.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/icgem/icgemio_read_header.cpp b/src/lib/icgem/icgemio_read_header.cpp
index aebf6a8..22f1437 100644
--- a/src/lib/icgem/icgemio_read_header.cpp
+++ b/src/lib/icgem/icgemio_read_header.cpp
@@ -1,5 +1,6 @@
 #include "icgemio.hpp"
 #include <cassert>
+#include <cctype>
 #include <charconv>
 #include <cstdio>
 #include <cstdlib>
@@ -75,8 +76,9 @@ int match_header_keyword(const char *parameter, const char *line,
   /* go to the first word (skip whitespaces) */
   const char *str = next_non_ws_char(line);
 
-  /* does the line start with the parameter_name string ? */
-  if (!std::strncmp(str, parameter, psz)) {
+  /* is the parameter_name string the first word of the line ? */
+  if (!std::strncmp(str, parameter, psz) &&
+      !(std::isalnum((unsigned char)str[psz]) || str[psz] == '_')) {
     /* start of new word after the keyword in line */
     argument = next_non_ws_char(next_ws_char(str));
     return 1;
-- 
2.43.0


From 8d915dc007eba7d1b3c8868c3c8b9066b5fadc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:27 +0000
Subject: [PATCH 34/54] fix: header values of ICGEM files overran their buffers

---
 src/lib/icgem/icgemio_read_header.cpp | 54 ++++++++++++++++++---------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/lib/icgem/icgemio_read_header.cpp b/src/lib/icgem/icgemio_read_header.cpp
index 22f1437..b6c790c 100644
--- a/src/lib/icgem/icgemio_read_header.cpp
+++ b/src/lib/icgem/icgemio_read_header.cpp
@@ -33,15 +33,19 @@ const char *next_ws_char(const char *line) noexcept {
   return s;
 }
 
-/** Given a null-terminated C-String, right trim whitespace characters */
-const char *right_trim(char *str) noexcept {
-  /* go to the rightmost character of the string */
-  char *right = str + std::strlen(str) - 1;
-  while (*right && right != str && *right == ' ') {
-    *right = '\0';
-    --right;
-  }
-  return right;
+/** Copy an argument (right-trimmed) to a buffer; anything other than 0 denotes
+ * that it does not fit.
+ */
+template <std::size_t N>
+int copy_argument(char (&buf)[N], const char *arg) noexcept {
+  std::size_t len = std::strlen(arg);
+  while (len && arg[len - 1] == ' ')
+    --len;
+  if (len >= N)
+    return 1;
+  std::memcpy(buf, arg, len);
+  buf[len] = '\0';
+  return 0;
 }
 
 /** Check if a given line corresponds to a given parameter name (or keyword)
@@ -140,8 +144,12 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "%s(traceback: %s)\n",
                 "product_type", _filename.c_str(), __func__);
         error = 1;
-      } else {
-        right_trim(std::strcpy(_product_type, arg));
+      } else if (copy_argument(_product_type, arg)) {
+        fprintf(stderr,
+                "[ERROR] Value of parameter %s in icgem %s is too long "
+                "(traceback: %s)\n",
+                "product_type", _filename.c_str(), __func__);
+        error = 1;
       }
 
       /* check if this the 'modelname' field (mandatory keyword) */
@@ -152,8 +160,12 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "%s(traceback: %s)\n",
                 "modelname", _filename.c_str(), __func__);
         error = 1;
-      } else {
-        right_trim(std::strcpy(_modelname, arg));
+      } else if (copy_argument(_modelname, arg)) {
+        fprintf(stderr,
+                "[ERROR] Value of parameter %s in icgem %s is too long "
+                "(traceback: %s)\n",
+                "modelname", _filename.c_str(), __func__);
+        error = 1;
       }
 
       /* check if this the 'earth_gravity_constant' field (mandatory keyword) */
@@ -249,8 +261,12 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "%s(traceback: %s)\n",
                 "tide_system", _filename.c_str(), __func__);
         error = 1;
-      } else {
-        right_trim(std::strcpy(_tide_system, arg));
+      } else if (copy_argument(_tide_system, arg)) {
+        fprintf(stderr,
+                "[ERROR] Value of parameter %s in icgem %s is too long "
+                "(traceback: %s)\n",
+                "tide_system", _filename.c_str(), __func__);
+        error = 1;
       }
 
       /* check if this the 'norm' field (optional keyword) */
@@ -261,8 +277,12 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "%s(traceback: %s)\n",
                 "norm", _filename.c_str(), __func__);
         error = 1;
-      } else {
-        right_trim(std::strcpy(_norm, arg));
+      } else if (copy_argument(_norm, arg)) {
+        fprintf(stderr,
+                "[ERROR] Value of parameter %s in icgem %s is too long "
+                "(traceback: %s)\n",
+                "norm", _filename.c_str(), __func__);
+        error = 1;
       }
 
       /* check for format/version */
-- 
2.43.0


From c978311870825b687c3a977b80cff8725a2ec538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:30 +0000
Subject: [PATCH 35/54] fix: site longitudes were shifted by 180 deg in the
 ocean pole load tide grid

---
 .../get_desai_ocp_deformation_coeffs.cpp         | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
index 4266e93..5a7a3ea 100644
--- a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
+++ b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
@@ -286,6 +286,14 @@ const char *skipws(const char *line) noexcept {
   return line;
 }
 
+/* longitude of a site in [deg], in the range [0, 360) used in the
+ * opoleloadcoefcmcor.txt file (site longitudes usually are in [-π, π))
+ */
+double lon_degrees(const dso::SphericalCrd &s) noexcept {
+  const double lon = dso::rad2deg(s.lon());
+  return (lon < 0e0) ? lon + 360e0 : lon;
+}
+
 /* parse a line off from a opoleloadcoefcmcor.txt file */
 int parse_line(const char *line, OptRecord &rec) {
   double data[8];
@@ -349,8 +357,8 @@ int dso::get_desai_ocp_deformation_coeffs(
   nodes.reserve(sta.size());
   for (const auto &s : sta) {
     long bl, br, tl, tr;
-    grd.surrounding_nodes(dso::rad2deg(s.lon() + DPI), dso::rad2deg(s.lat()),
-                          bl, br, tl, tr);
+    grd.surrounding_nodes(lon_degrees(s), dso::rad2deg(s.lat()), bl, br, tl,
+                          tr);
     nodes.emplace_back(SiteNode{bl, br, tl, tr});
   }
 
@@ -410,7 +418,7 @@ int dso::get_desai_ocp_deformation_coeffs(
     /* bilinear interpolation */
     const double x1 = bl->lon;
     const double x2 = br->lon;
-    const double x = dso::rad2deg(site.lon()+DPI);
+    const double x = lon_degrees(site);
     const double y1 = bl->lat;
     const double y2 = tl->lat;
     const double y = dso::rad2deg(site.lat());
@@ -420,7 +428,7 @@ int dso::get_desai_ocp_deformation_coeffs(
     const double f12 = (x2 - x) * (y - y1);
     const double f22 = (x - x1) * (y - y1);
 #ifdef DEBUG
-    const double x0 = dso::rad2deg(site.lon() + DPI);
+    const double x0 = lon_degrees(site);
     const double y0 = dso::rad2deg(site.lat());
     //printf("TL(%.2f, %.2f)    TR(%.2f, %.2f)\n", tl->lon, tl->lat, tr->lon, tr->lat);
     //printf("             (%.2f,  %.2f)\n", x0, y0);
-- 
2.43.0


From accfcb8c9b93933406ee72fc129aaefae98dcb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:55 +0000
Subject: [PATCH 36/54] fix: header lines without '=' were read past their end
 in the ocean pole load tide grid

---
 src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
index 5a7a3ea..e96e62b 100644
--- a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
+++ b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
@@ -19,7 +19,8 @@ constexpr const int MAX_CH = 256;
 const char *nf(const char *line) noexcept {
   while (*line && *line != '=')
     ++line;
-  ++line;
+  if (*line)
+    ++line;
   while (*line && *line == ' ')
     ++line;
   return line;
-- 
2.43.0


From d9ee30e7a70db0f97b1aae81f015bbacc7d46184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:55 +0000
Subject: [PATCH 37/54] fix: sites not surrounded by grid nodes got
 coefficients of unrelated nodes (ocean pole load tide)

---
 .../pole_tide/get_desai_ocp_deformation_coeffs.cpp   | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
index e96e62b..9e33028 100644
--- a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
+++ b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
@@ -408,8 +408,13 @@ int dso::get_desai_ocp_deformation_coeffs(
     auto tr = std::lower_bound(
         recs.begin(), recs.end(), nptr->tr,
         [](const OptRecord &r, long i) { return r.index < i; });
-    if (nptr->bl != bl->index || nptr->br != br->index ||
-        nptr->tl != tl->index || nptr->tr != tr->index) {
+    /* all nodes must be available, and they must form a cell */
+    const auto end = recs.end();
+    if (bl == end || br == end || tl == end || tr == end ||
+        nptr->bl != bl->index || nptr->br != br->index ||
+        nptr->tl != tl->index || nptr->tr != tr->index ||
+        bl->lon != tl->lon || br->lon != tr->lon || bl->lat != br->lat ||
+        tl->lat != tr->lat || bl->lon >= br->lon || bl->lat >= tl->lat) {
       fprintf(stderr,
               "[ERROR] Failed interpolating for site at (%.3f %.3f) "
               "(traceback: %s)\n",
@@ -439,9 +444,6 @@ int dso::get_desai_ocp_deformation_coeffs(
     assert(tl->lon <= x0 && tl->lat > y0);
     assert(tr->lon > x0 && tr->lat > y0);
 #endif
-    /* (redundant?) checks */
-    assert(((bl->lon == tl->lon) && (br->lon == tr->lon)) &&
-           ((bl->lat == br->lat) && (tl->lat == tr->lat)));
     assert(bl->lon <= x && bl->lat <= y);
 
     const double rR =
-- 
2.43.0


From f390935fa08682833932e841fa955ee62e13f1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:55 +0000
Subject: [PATCH 38/54] fix: lines of negative degree or order, or order above
 degree, wrote out of bounds in the ocean pole tide coefficients

---
 src/lib/pole_tide/parse_desai02_coeffs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/pole_tide/parse_desai02_coeffs.cpp b/src/lib/pole_tide/parse_desai02_coeffs.cpp
index 9c41fb1..4269e97 100644
--- a/src/lib/pole_tide/parse_desai02_coeffs.cpp
+++ b/src/lib/pole_tide/parse_desai02_coeffs.cpp
@@ -108,7 +108,8 @@ int dso::pole_tide_details::parse_desai02_coeffs(
       error += (res.ec != std::errc{});
       from = res.ptr;
     }
-    if (l <= max_degree && m <= max_order) {
+    error += (m < 0 || m > l);
+    if (!error && l <= max_degree && m <= max_order) {
       A_real(l, m) = data[0];
       B_real(l, m) = data[1];
       A_imag(l, m) = data[2];
-- 
2.43.0


From 18bda2537ef7d56b18c34df6da8a7457012883c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:33 +0000
Subject: [PATCH 39/54] fix: C04 lines shorter than the date columns were
 scanned beyond their end, taking over numbers of the previous line

---
 src/lib/eop/parse_iers_c0414.cpp | 4 ++++
 src/lib/eop/parse_iers_c0420.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/lib/eop/parse_iers_c0414.cpp b/src/lib/eop/parse_iers_c0414.cpp
index 4434414..097bbe3 100644
--- a/src/lib/eop/parse_iers_c0414.cpp
+++ b/src/lib/eop/parse_iers_c0414.cpp
@@ -73,6 +73,10 @@ int dso::details::parse_iers_C0414(const char *c04fn,
       /* skip the data (YYYY MM DD) which is 12 chars length and get the mjd
        * (note that this is UTC)
        */
+      if (cend - line < 12) {
+        error = 1;
+        break;
+      }
       cstart = next_num(line + 12);
       auto fcr = std::from_chars(cstart, cend, imjd);
       if (fcr.ec != std::errc() || fcr.ptr == cstart)
diff --git a/src/lib/eop/parse_iers_c0420.cpp b/src/lib/eop/parse_iers_c0420.cpp
index 4919316..419e5d4 100644
--- a/src/lib/eop/parse_iers_c0420.cpp
+++ b/src/lib/eop/parse_iers_c0420.cpp
@@ -76,6 +76,10 @@ int dso::details::parse_iers_C0420(const char *c04fn,
       /* skip the data (YYYY MM DD) which is 12 chars length and get the mjd
        * (note that this is UTC)
        */
+      if (cend - line < 12) {
+        error = 1;
+        break;
+      }
       cstart = next_num(line + 12);
       std::from_chars_result fcr;
 
-- 
2.43.0


From 9ed094eb15f3f8662111f81c204c78cb038c520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:33 +0000
Subject: [PATCH 40/54] fix: numbers of Lambert coefficient lines that could
 not be read were used uninitialised

---
 src/lib/free_core_nutation/parse_lambert_coeffs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/free_core_nutation/parse_lambert_coeffs.cpp b/src/lib/free_core_nutation/parse_lambert_coeffs.cpp
index b316515..efe6165 100644
--- a/src/lib/free_core_nutation/parse_lambert_coeffs.cpp
+++ b/src/lib/free_core_nutation/parse_lambert_coeffs.cpp
@@ -105,7 +105,7 @@ int dso::parse_lambert_coefficients(
       str = res.ptr;
     }
     /* are we interested ? */
-    if (d[1] >= from.as_mjd() && d[1] < to.as_mjd()) {
+    if (!error && d[1] >= from.as_mjd() && d[1] < to.as_mjd()) {
       /* resolve fractional MJD to a MjdEpoch */
       double ipart;
       const double fday = std::modf(d[1], &ipart);
-- 
2.43.0


From 4a277731d1b24b054d7d75d8d725b9ebcca6e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:45 +0000
Subject: [PATCH 41/54] fix: average running time was truncated to whole units
 and divided by zero without samples

---
 include/clock.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/clock.hpp b/include/clock.hpp
index be849cd..d5e80d4 100644
--- a/include/clock.hpp
+++ b/include/clock.hpp
@@ -23,7 +23,7 @@ struct Clock {
   }
   template <typename T = std::chrono::microseconds>
   double average_running_time() const {
-    return get_total_duration<T>().count() / msamples;
+    return static_cast<double>(get_total_duration<T>().count()) / msamples;
   }
 
   Clock(const char *n) { std::strcpy(mname, n); }
-- 
2.43.0


From 24f4e691ec72d05f93cb9d4331f9812715f9dc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:45 +0000
Subject: [PATCH 42/54] fix: clock names longer than 23 characters overran
 their buffer

---
 include/clock.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/clock.hpp b/include/clock.hpp
index d5e80d4..cda2331 100644
--- a/include/clock.hpp
+++ b/include/clock.hpp
@@ -26,7 +26,7 @@ struct Clock {
     return static_cast<double>(get_total_duration<T>().count()) / msamples;
   }
 
-  Clock(const char *n) { std::strcpy(mname, n); }
+  Clock(const char *n) { std::strncpy(mname, n, sizeof(mname) - 1); }
 
   Clock(const Clock &other) {
     start_time = other.start_time;
-- 
2.43.0


From 3aff92b0a006bf3b52e3e6c50b0a7b591e49c0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:07 +0000
Subject: [PATCH 43/54] fix: AOD1B header lines without delimiter or value were
 read outside the line

---
 src/lib/aod1b/aod1b_read_header.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lib/aod1b/aod1b_read_header.cpp b/src/lib/aod1b/aod1b_read_header.cpp
index 813c261..0b1a4d8 100644
--- a/src/lib/aod1b/aod1b_read_header.cpp
+++ b/src/lib/aod1b/aod1b_read_header.cpp
@@ -11,24 +11,24 @@ const char *header_field(const char *line) noexcept {
   const char *c = line;
   while (*c && *c != ':')
     ++c;
-  c = c + 1;
+  if (*c == ':')
+    ++c;
   while (*c && *c == ' ')
     ++c;
   return c;
 }
 const char *header_field(const char *line, int &sz) noexcept {
   /* start in reverse, find last char that is not ws */
-  const char *c = line + std::strlen(line) - 1;
-  while (*c && *c == ' ')
-  // while (*c && std::isspace(static_cast<unsigned char>(*c)))
-    --c;
-  const char *last = c;
+  const char *end = line + std::strlen(line);
+  while (end > line && *(end - 1) == ' ')
+    --end;
+  const char *c = end;
   /* find delimeter, i.e. ':' */
-  while (*c && *c != ':')
+  while (c > line && *c != ':')
     --c;
   /* first non ws character after delimeter */
   c = header_field(c);
-  sz = (last - c) + 1;
+  sz = (end > c) ? (end - c) : 0;
   return c;
 }
 } /* unnamed namespace */
@@ -275,7 +275,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
       }
     } else if (!std::strncmp(line, "CONSTANT A [M]", 14)) {
       const char *last = line + std::strlen(line);
-      if (std::from_chars(header_field(line + 22), last, Re()).ec !=
+      if (std::from_chars(header_field(line + 14), last, Re()).ec !=
           std::errc{}) {
         fprintf(stderr,
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
-- 
2.43.0


From 23b8eedf94101934d1cf34a9f8e399f85de663ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:07 +0000
Subject: [PATCH 44/54] fix: long fields and unknown tidal waves in AOD1B
 headers overran buffers and dereferenced null

---
 src/lib/aod1b/aod1b_read_header.cpp | 33 +++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/lib/aod1b/aod1b_read_header.cpp b/src/lib/aod1b/aod1b_read_header.cpp
index 0b1a4d8..537cd4d 100644
--- a/src/lib/aod1b/aod1b_read_header.cpp
+++ b/src/lib/aod1b/aod1b_read_header.cpp
@@ -31,6 +31,16 @@ const char *header_field(const char *line, int &sz) noexcept {
   sz = (end > c) ? (end - c) : 0;
   return c;
 }
+/* copy a header field to a buffer of given size (including the terminating
+ * null character)
+ */
+int copy_field(char *to, int max_size, const char *from, int sz) noexcept {
+  if (sz >= max_size)
+    return 1;
+  std::memcpy(to, from, sizeof(char) * sz);
+  to[sz] = '\0';
+  return 0;
+}
 } /* unnamed namespace */
 
 int dso::Aod1bIn::read_header() noexcept {
@@ -55,7 +65,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
     if (!std::strncmp(line, "PRODUCER AGENCY", 15)) {
       int sz = 0;
       const char *r = header_field(line + 15, sz);
-      std::memcpy(agency(), r, sizeof(char) * sz);
+      error += copy_field(agency(), satellite_offset - agency_offset, r, sz);
     } else if (!std::strncmp(line, "PRODUCER INSTITUTION", 20)) {
       /* do nothing */
       ;
@@ -98,11 +108,11 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
     } else if (!std::strncmp(line, "SATELLITE NAME", 14)) {
       int sz = 0;
       const char *r = header_field(line + 14, sz);
-      std::memcpy(satellite(), r, sizeof(char) * sz);
+      error += copy_field(satellite(), sensor_offset - satellite_offset, r, sz);
     } else if (!std::strncmp(line, "SENSOR NAME", 11)) {
       int sz = 0;
       const char *r = header_field(line + 11, sz);
-      std::memcpy(sensor(), r, sizeof(char) * sz);
+      error += copy_field(sensor(), process_level_offset - sensor_offset, r, sz);
     } else if (!std::strncmp(line, "TIME EPOCH (GPS TIME)", 21)) {
       time_epoch() =
           dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
@@ -203,17 +213,20 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
     } else if (!std::strncmp(line, "PROCESS LEVEL (1A OR 1B)", 24)) {
       int sz = 0;
       const char *r = header_field(line + 24, sz);
-      std::memcpy(process_level(), r, sizeof(char) * sz);
+      error += copy_field(process_level(),
+                          pressure_type_offset - process_level_offset, r, sz);
     } else if (!std::strncmp(line, "PRESSURE TYPE (SP OR VI)", 24)) {
       /* present in non-tidal loading files */
       int sz = 0;
       const char *r = header_field(line + 24, sz);
-      std::memcpy(pressure_type(), r, sizeof(char) * sz);
+      error += copy_field(pressure_type(), MaxArenaChars - pressure_type_offset,
+                          r, sz);
     } else if (!std::strncmp(line, "PRESSURE TYPE (ATM OR OCN)", 26)) {
       /* present in tidal files */
       int sz = 0;
       const char *r = header_field(line + 26, sz);
-      std::memcpy(pressure_type(), r, sizeof(char) * sz);
+      error += copy_field(pressure_type(), MaxArenaChars - pressure_type_offset,
+                          r, sz);
     } else if (!std::strncmp(line, "MAXIMUM DEGREE", 14)) {
       const char *last = line + std::strlen(line);
       if (std::from_chars(header_field(line + 14), last, max_degree()).ec !=
@@ -320,16 +333,18 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
       int sz = 0;
       const char *r = header_field(line + 12, sz);
       char buf[8] = "\0";
-      std::memcpy(buf, r, sizeof(char) * sz);
-      const auto *waveptr = dso::find_wave_entry(buf);
+      const auto *waveptr = copy_field(buf, sizeof(buf), r, sz)
+                                ? nullptr
+                                : dso::find_wave_entry(buf);
       if (!waveptr) {
         fprintf(stderr,
                 "[ERROR] Failed resolving tidal wave from AOD1B file %s "
                 "(traceback: %s)\n",
                 mfn.c_str(), __func__);
         ++error;
+      } else {
+        mwave = *waveptr;
       }
-      mwave = *waveptr;
     } else if (!std::strncmp(line, "END OF HEADER", 13)) {
       break;
     } else {
-- 
2.43.0


From a95f95245b613e1d99795853516b23b59d197ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:07 +0000
Subject: [PATCH 45/54] fix: unreadable observation times in AOD1B headers were
 used uninitialised

---
 src/lib/aod1b/aod1b_read_header.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/aod1b/aod1b_read_header.cpp b/src/lib/aod1b/aod1b_read_header.cpp
index 537cd4d..9fab7d6 100644
--- a/src/lib/aod1b/aod1b_read_header.cpp
+++ b/src/lib/aod1b/aod1b_read_header.cpp
@@ -127,13 +127,13 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
                 "(traceback: %s)\n",
                 line, mfn.c_str(), __func__);
-        ++error;
+        return 1;
       }
       nanoseconds isec(static_cast<nanoseconds::underlying_type>(sec * 1e9));
       first_epoch() = time_epoch().add_seconds(isec);
       // first_epoch().add_seconds(isec);
       /* validate */
-      while (!std::isdigit(*res.ptr))
+      while (*res.ptr && !std::isdigit(static_cast<unsigned char>(*res.ptr)))
         ++res.ptr;
       dso::Datetime<dso::nanoseconds> tmp =
           dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
@@ -151,7 +151,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
                 "(traceback: %s)\n",
                 line, mfn.c_str(), __func__);
-        ++error;
+        return 1;
       }
       mfirst_epoch =
           dso::Datetime<nanoseconds>(dso::year(year), dso::day_of_year(1));
@@ -164,13 +164,13 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
                 "(traceback: %s)\n",
                 line, mfn.c_str(), __func__);
-        ++error;
+        return 1;
       }
       nanoseconds isec(static_cast<nanoseconds::underlying_type>(sec * 1e9));
       last_epoch() = time_epoch().add_seconds(isec);
       // last_epoch().add_seconds(isec);
       /* validate */
-      while (!std::isdigit(*res.ptr))
+      while (*res.ptr && !std::isdigit(static_cast<unsigned char>(*res.ptr)))
         ++res.ptr;
       dso::Datetime<dso::nanoseconds> tmp =
           dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
@@ -188,7 +188,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
                 "(traceback: %s)\n",
                 line, mfn.c_str(), __func__);
-        ++error;
+        return 1;
       }
       mlast_epoch =
           dso::Datetime<nanoseconds>(dso::year(year), dso::day_of_year(1));
-- 
2.43.0


From 5c898370276426dabb54dac2d0953414e30c5027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:07 +0000
Subject: [PATCH 46/54] fix: AOD1B lines of negative degree or order, or order
 above degree, were stored out of bounds

---
 src/lib/aod1b/aod1b_collect_coeffs.cpp | 2 ++
 src/lib/aod1b/aod1b_get_tidal_wave.cpp | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/aod1b/aod1b_collect_coeffs.cpp b/src/lib/aod1b/aod1b_collect_coeffs.cpp
index 05a2549..7ceeb6c 100644
--- a/src/lib/aod1b/aod1b_collect_coeffs.cpp
+++ b/src/lib/aod1b/aod1b_collect_coeffs.cpp
@@ -70,6 +70,8 @@ int dso::Aod1bIn::collect_coeffs(std::ifstream &fin, int max_degree,
     error += (res.ec != std::errc{});
     res = std::from_chars(skipws(res.ptr), stop, m);
     error += (res.ec != std::errc{});
+    /* no such coefficient */
+    error += (m < 0 || m > l);
     if ((l <= max_degree) && (m <= max_order) && (!error)) {
       res = std::from_chars(skipws(res.ptr), stop, cs.C(l, m));
       error += (res.ec != std::errc{});
diff --git a/src/lib/aod1b/aod1b_get_tidal_wave.cpp b/src/lib/aod1b/aod1b_get_tidal_wave.cpp
index f1bab1b..2b49364 100644
--- a/src/lib/aod1b/aod1b_get_tidal_wave.cpp
+++ b/src/lib/aod1b/aod1b_get_tidal_wave.cpp
@@ -76,12 +76,14 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
 
   /* watch the order in the while condition! */
   while ((lines_parsed < max_lines) && (!error) && fin.getline(line, MAXL)) {
-    int l, m;
+    int l = 0, m = 0;
     const char *stop = line + std::strlen(line);
     res = std::from_chars(skipws(line), stop, l);
     error += (res.ec != std::errc{});
     res = std::from_chars(skipws(res.ptr), stop, m);
     error += (res.ec != std::errc{});
+    /* no such coefficient */
+    error += (m < 0 || m > l);
     if ((l <= max_degree) && (m <= max_order) && (!error)) {
       res = std::from_chars(skipws(res.ptr), stop, cCs.C(l, m));
       error += (res.ec != std::errc{});
@@ -120,12 +122,14 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
 
   /* watch the order in the while condition! */
   while ((lines_parsed < max_lines) && (!error) && fin.getline(line, MAXL)) {
-    int l, m;
+    int l = 0, m = 0;
     const char *stop = line + std::strlen(line);
     res = std::from_chars(skipws(line), stop, l);
     error += (res.ec != std::errc{});
     res = std::from_chars(skipws(res.ptr), stop, m);
     error += (res.ec != std::errc{});
+    /* no such coefficient */
+    error += (m < 0 || m > l);
     if ((l <= max_degree) && (m <= max_order) && (!error)) {
       res = std::from_chars(skipws(res.ptr), stop, sCs.C(l, m));
       error += (res.ec != std::errc{});
-- 
2.43.0


From c68854fdefcac665d9714b0dc4e189e11bb575ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:07 +0000
Subject: [PATCH 47/54] fix: malformed AOD1B block headers were scanned for a
 date at arbitrary places

---
 .../aod1b/aod1b_parse_data_block_header.cpp    | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/lib/aod1b/aod1b_parse_data_block_header.cpp b/src/lib/aod1b/aod1b_parse_data_block_header.cpp
index d08d235..c28e0d7 100644
--- a/src/lib/aod1b/aod1b_parse_data_block_header.cpp
+++ b/src/lib/aod1b/aod1b_parse_data_block_header.cpp
@@ -23,7 +23,7 @@ int dso::Aod1bIn::parse_data_block_header(
 
   auto res = std::from_chars(skipws(str), last, rec.mset_nr);
   error += (res.ec != std::errc{});
-  str = res.ptr + 1;
+  str = res.ptr + (*res.ptr ? 1 : 0);
 
   res = std::from_chars(skipws(str), last, rec.mnum_lines);
   error += (res.ec != std::errc{});
@@ -31,16 +31,24 @@ int dso::Aod1bIn::parse_data_block_header(
 
   if (std::strncmp(skipws(str), "COEFFICIENTS FOR ", 17))
     ++error;
-  str = skipws(str + 17);
+  if (error) {
+    fprintf(
+        stderr,
+        "[ERROR] Failed parsing AOD1B block header line [%s] (tracback: %s)\n",
+        line, __func__);
+    return 1;
+  }
+  str = skipws(skipws(str) + 17);
   rec.mepoch = dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
                               dso::nanoseconds>(str, &res.ptr);
   /* GPST to TT */
   rec.mepoch = rec.mepoch.gps2tt();
 
-  str = res.ptr + 1;
-  if (std::strncmp(skipws(str), "OF TYPE", 7))
+  str = skipws(res.ptr);
+  if (std::strncmp(str, "OF TYPE", 7))
     ++error;
-  str = skipws(str + 7);
+  else
+    str = skipws(str + 7);
 
   if (!std::strncmp(skipws(str), "atm", 3))
     rec.mtype = dso::AOD1BCoefficientType::ATM;
-- 
2.43.0


From 49a8819cce1a9d484d10e7be575d339b42ffa48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:07 +0000
Subject: [PATCH 48/54] fix: tidal AOD1B data set headings shorter than
 expected were scanned beyond their end

---
 src/lib/aod1b/aod1b_get_tidal_wave.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/lib/aod1b/aod1b_get_tidal_wave.cpp b/src/lib/aod1b/aod1b_get_tidal_wave.cpp
index 2b49364..b3ba1a2 100644
--- a/src/lib/aod1b/aod1b_get_tidal_wave.cpp
+++ b/src/lib/aod1b/aod1b_get_tidal_wave.cpp
@@ -60,10 +60,14 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
   /* this should be the cos coeffs */
   fin.getline(line, MAXL);
   const char *end = line + std::strlen(line);
-  if (std::strncmp(skipws(line), "DATA SET 01:", 12))
+  const char *str = skipws(line);
+  if (std::strncmp(str, "DATA SET 01:", 12))
     ++error;
-  auto res = std::from_chars(skipws(line + 12), end, max_lines);
-  error += (res.ec != std::errc{});
+  std::from_chars_result res{line, std::errc{}};
+  if (!error) {
+    res = std::from_chars(skipws(str + 12), end, max_lines);
+    error += (res.ec != std::errc{});
+  }
   if (std::strncmp(skipws(res.ptr), "COEFFICIENTS OF TYPE cos", 24))
     ++error;
   if (error) {
@@ -106,10 +110,13 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
   lines_parsed = 0;
   fin.getline(line, MAXL);
   end = line + std::strlen(line);
-  if (std::strncmp(skipws(line), "DATA SET 02:", 12))
+  str = skipws(line);
+  if (std::strncmp(str, "DATA SET 02:", 12))
     ++error;
-  res = std::from_chars(skipws(line + 12), end, max_lines);
-  error += (res.ec != std::errc{});
+  if (!error) {
+    res = std::from_chars(skipws(str + 12), end, max_lines);
+    error += (res.ec != std::errc{});
+  }
   if (std::strncmp(skipws(res.ptr), "COEFFICIENTS OF TYPE sin", 24))
     ++error;
   if (error) {
-- 
2.43.0


From 85a61a40a6e00616a93738c1d31e03eb75e54f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:07 +0000
Subject: [PATCH 49/54] fix: names of compressed AOD1B products lacked the .gz
 extension

---
 src/lib/aod1b/aod1bnontidalproductnaming.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/aod1b/aod1bnontidalproductnaming.cpp b/src/lib/aod1b/aod1bnontidalproductnaming.cpp
index e1b7898..dd1390d 100644
--- a/src/lib/aod1b/aod1bnontidalproductnaming.cpp
+++ b/src/lib/aod1b/aod1bnontidalproductnaming.cpp
@@ -17,7 +17,7 @@ const char *dso::Aod1bNonTidalProductNaming::filename(
   std::sprintf(buf + 18, "_%02d.asc", rl);
   /* add compression (if needed) */
   if (is_compressed) 
-    std::strcpy(buf+27, ".gz");
+    std::strcpy(buf+25, ".gz");
   /* all done */
   return buf;
 }
-- 
2.43.0


From 881bc96604f25f0f984a52d501d6460354302bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:07 +0000
Subject: [PATCH 50/54] fix: resolving the release of AOD1B names without path,
 or too short, read outside the name

---
 src/lib/aod1b/aod1bnontidalproductnaming.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/aod1b/aod1bnontidalproductnaming.cpp b/src/lib/aod1b/aod1bnontidalproductnaming.cpp
index dd1390d..d62b235 100644
--- a/src/lib/aod1b/aod1bnontidalproductnaming.cpp
+++ b/src/lib/aod1b/aod1bnontidalproductnaming.cpp
@@ -25,7 +25,15 @@ const char *dso::Aod1bNonTidalProductNaming::filename(
 int dso::Aod1bNonTidalProductNaming::resolve_rl(const char *fn) noexcept {
   /* Find the last occurrence of '/' to get the filename */
   const char *basename = std::strrchr(fn, '/');
-  ++basename;
+  basename = basename ? basename + 1 : fn;
+  /* up to the RL field: AOD1B_YYYY-MM-DD_S_RL */
+  if (std::strlen(basename) < 21) {
+    fprintf(
+        stderr,
+        "[ERROR] Failed resolving RL from AOD1B filename %s (traceback: %s)\n",
+        basename, __func__);
+    return -100;
+  }
   int rl;
   const auto j = std::from_chars(basename + 19, basename + 21, rl);
   if (j.ec != std::errc{}) {
-- 
2.43.0


From ccb630feea0dc5a665da9a14c2c12b4c1d589eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:22 +0000
Subject: [PATCH 51/54] fix: AOD1B stream reads forward to the blocks enclosing
 the epoch asked for

---
 include/aod1b_data_stream.hpp | 95 +++++++++--------------------------
 1 file changed, 23 insertions(+), 72 deletions(-)

diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index dfe433b..5b4b418 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -115,81 +115,32 @@ private:
     char buf[64];
 
     /* shit, we don;t have the bounding coeffs!
-     * (a) First, read in one more header/block, and see if we are there yet.
-     * (b) Else, keep on reading until we find a header that is > t (storing
-     * coeffs along the way).
-     * Both are only possible if the iterator is not marked as EOF!
+     * Keep on reading (header and block) until we find a header that is > t,
+     * always holding the last AR_SIZE blocks read.
+     * This is only possible if the iterator is not marked as EOF!
      * Note that mit holds the next (to current) header.
      */
-    if (t >= mhdrvec[2].mepoch && !mit.is_eof()) {
-      /* advance to next header/block */
-      if (t >= mhdrvec[2].mepoch && t < mit.header().mepoch) {
-        /* cool, got it! */
-        swap(0, 1);
-        swap(1, 2);
-        mhdrvec[2] = mit.header();
-        int j = mit.collect(mcsvec[2]);
-        mit.advance();
-        return (j > 0) ? (-1) : (1);
-      } else {
-        /* this block doesn't fit either! keep on reading */
-        int error = 0;
-        while (t <= mit.header().mepoch && (!error)) {
-          /* store coeffs at 0 index */
-          error = mit.collect(mcsvec[0]);
-          mhdrvec[0] = mit.header();
-          error += mit.advance();
-        }
-        if (error) {
-          fprintf(stderr,
-                  "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
-                  "AOD1B file %s; at [1] (traceback: %s)\n",
-                  to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(
-                      t, buf),
-                  mit.aod1b().fn().c_str(), __func__);
-          return -2;
-        }
-        /* read next block so that we have the bounding interval */
-        if (mit.collect(mcsvec[1])) {
-          fprintf(stderr,
-                  "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
-                  "AOD1B file %s; at [1A] (traceback: %s)\n",
-                  to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(
-                      t, buf),
-                  mit.aod1b().fn().c_str(), __func__);
-              return -3;
-          }
-        mhdrvec[1] = mit.header();
-        int j = mit.advance();
-        /* since we are here, read also the next block */
-        if (j < 0) {
-          mit.set_eof(); /* already set but nevertheless .. */
-          mhdrvec[2] = mit.header();
-        } else if (j > 0) {
-          fprintf(stderr,
-                  "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
-                  "AOD1B file %s; at [2] (traceback: %s)\n",
-                  to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(
-                      t, buf),
-                  mit.aod1b().fn().c_str(), __func__);
-          return -3;
-        } else {
-          if (mit.collect(mcsvec[2])) {
-          fprintf(stderr,
-                  "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
-                  "AOD1B file %s; at [3] (traceback: %s)\n",
-                  to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(
-                      t, buf),
-                  mit.aod1b().fn().c_str(), __func__);
-              return -3;
-          }
-          mhdrvec[2] = mit.header();
-          mit.advance();
-        }
-        /* return the index */
-        return 0;
+    while (t >= mhdrvec[2].mepoch && !mit.is_eof()) {
+      swap(0, 1);
+      swap(1, 2);
+      mhdrvec[2] = mit.header();
+      if (mit.collect(mcsvec[2]) || mit.advance() > 0) {
+        fprintf(stderr,
+                "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
+                "AOD1B file %s; (traceback: %s)\n",
+                to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(
+                    t, buf),
+                mit.aod1b().fn().c_str(), __func__);
+        /* do not leave a half-read block in the buffer */
+        initialize();
+        return -2;
       }
-    } else if (t < mhdrvec[0].mepoch) {
+    }
+    if (t >= mhdrvec[1].mepoch && t < mhdrvec[2].mepoch) {
+      return 1;
+    }
+
+    if (t < mhdrvec[0].mepoch) {
       /* before anything else, check if the given t is after the first dataset
        * in the file. If not, we cannot do anything! Else, go to the start of
        * the file, and re-start hunting.
-- 
2.43.0


From a5a67d4be464d008c7c34b55383799297895372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:22 +0000
Subject: [PATCH 52/54] fix: AOD1B stream reports files without blocks of its
 type, no terminate

---
 include/aod1b_data_stream.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index 5b4b418..08dd675 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -200,7 +200,14 @@ public:
    * Example:
    */
   int initialize() noexcept {
-    mit.set_begin();
+    try {
+      mit.set_begin();
+    } catch (std::exception &) {
+      fprintf(stderr,
+              "[ERROR] Failed initializing Aod1bDataStream (traceback: %s)\n",
+              __func__);
+      return 1;
+    }
     if (mit.collect(mcsvec[0])) {
       fprintf(stderr,
               "[ERROR] Failed initializing Aod1bDataStream (traceback: %s)\n",
@@ -244,6 +251,8 @@ public:
     try {
       mstream = Aod1bIn(pfn);
       mit = Aod1bDataBlockIterator<T>(mstream);
+      /* place iterator at the first data block */
+      mit.set_begin();
     } catch (std::exception &) {
       return 2;
     }
@@ -251,7 +260,6 @@ public:
     swap(0, 1);
     swap(1, 2);
     /* collect header and first data block */
-    mit.set_begin();
     if (mit.collect(mcsvec[index])) {
       fprintf(stderr,
               "[ERROR] Failed initializing Aod1bDataStream from %s (traceback: %s)\n",
-- 
2.43.0


From e327620f80745c5e777e1b8632bc1054cd9acb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:22 +0000
Subject: [PATCH 53/54] fix: AOD1B stream holds next file names of any length

---
 include/aod1b_data_stream.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index 08dd675..63ea81d 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -237,19 +237,19 @@ public:
   /** @brief Continue streaming from a new non-tidal AOD1B file.
    */
   int feed_next_file() noexcept {
-    char pfn[256];
+    std::string nextfn;
     {
+      char pfn[256];
       int rl = Aod1bNonTidalProductNaming::resolve_rl(mstream.fn().c_str());
       auto mjd = mstream.last_epoch().imjd() + dso::modified_julian_day(1);
       Aod1bNonTidalProductNaming::filename(mjd.to_ymd(), rl, pfn);
-      std::string fullPathStr = (mdir.path() / pfn).string();
-      std::strcpy(pfn, fullPathStr.c_str());
+      nextfn = (mdir.path() / pfn).string();
     }
     /* read first block of new file to last index */
     constexpr const int index = AR_SIZE - 1;
     /* create an Aod1bIn instance and get the iterator */
     try {
-      mstream = Aod1bIn(pfn);
+      mstream = Aod1bIn(nextfn.c_str());
       mit = Aod1bDataBlockIterator<T>(mstream);
       /* place iterator at the first data block */
       mit.set_begin();
@@ -263,7 +263,7 @@ public:
     if (mit.collect(mcsvec[index])) {
       fprintf(stderr,
               "[ERROR] Failed initializing Aod1bDataStream from %s (traceback: %s)\n",
-              pfn, __func__);
+              nextfn.c_str(), __func__);
       return 1;
     }
     mhdrvec[index] = mit.header();
-- 
2.43.0


From 3b1c1a4a2b7a0512bdf3d13e8bb92fe0684c310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:39 +0000
Subject: [PATCH 54/54] fix: moved AOD1B streams read from their own file and
 keep their directory

---
 include/aod1b.hpp             |  5 +++++
 include/aod1b_data_stream.hpp | 11 +++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/aod1b.hpp b/include/aod1b.hpp
index debb747..c4231d8 100644
--- a/include/aod1b.hpp
+++ b/include/aod1b.hpp
@@ -401,6 +401,11 @@ public:
   Aod1bDataBlockIterator(const Aod1bIn &aod)
       : maod(&aod), mfin(aod.mfn.c_str()){};
 
+  /** bind to another Aod1bIn instance (of the same file), e.g. when the one we
+   * were bound to is moved
+   */
+  void bind(const Aod1bIn &aod) noexcept { maod = &aod; }
+
   /** get a const reference to the underlying Aod1bIn instance */
   const Aod1bIn &aod1b() const {return *maod;}
 
diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index 63ea81d..8326a1c 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -388,7 +388,7 @@ public:
 
   /** Destructor */
   ~Aod1bDataStream() noexcept {
-    for (int i = 0; i < AR_SIZE; i++)
+    for (int i = 0; mcsvec && i < AR_SIZE; i++)
       mcsvec[i].~StokesCoeffs();
     operator delete[](mcsvec);
   }
@@ -400,7 +400,9 @@ public:
   /** Move-construction allowed */
   Aod1bDataStream(Aod1bDataStream &&other) noexcept
       : mstream(std::move(other.mstream)), mit(std::move(other.mit)),
-        mhdrvec(std::move(other.mhdrvec)), mcsvec(other.mcsvec) {
+        mhdrvec(std::move(other.mhdrvec)), mcsvec(other.mcsvec),
+        mdir(std::move(other.mdir)) {
+    mit.bind(mstream);
     other.mcsvec = nullptr;
   }
   /** Move assignement operator allowed */
@@ -408,9 +410,10 @@ public:
     if (this != &other) {
       mstream = std::move(other.mstream);
       mit = std::move(other.mit);
+      mit.bind(mstream);
       mhdrvec = std::move(other.mhdrvec);
-      mcsvec = other.mcsvec;
-      other.mcsvec = nullptr;
+      std::swap(mcsvec, other.mcsvec);
+      mdir = std::move(other.mdir);
     }
     return *this;
   }
-- 
2.43.0

