From e0330a606c1a8f41a4c9719a99b1d4ab11346916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:32 +0000
Subject: [PATCH 01/22] fix: apply sign and chain rule in scalar norm Jacobians

---
 include/tinyopt/losses/norms.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/tinyopt/losses/norms.h b/include/tinyopt/losses/norms.h
index 1b0db1e..fa240c3 100644
--- a/include/tinyopt/losses/norms.h
+++ b/include/tinyopt/losses/norms.h
@@ -14,6 +14,17 @@ namespace tinyopt::losses {
  * @{
  */
 
+/// Return the derivative `j` of a scalar loss or, if given, its product with the jacobian `Jx`
+template <typename T, typename ExportJ>
+auto ScalarJacobian(const T &j, const ExportJ &Jx_or_bool) {
+  if constexpr (traits::is_matrix_or_array_v<ExportJ>)
+    return (j * Jx_or_bool).eval();
+  else if constexpr (traits::is_bool_v<ExportJ>)
+    return j;
+  else  // Jx is a scalar
+    return T(j * Jx_or_bool);
+}
+
 /// Return the squared L2 norm of a vector or scalar (a.k.a Sum of Squares)
 template <typename T>
 auto SquaredL2(const T &x) {
@@ -43,7 +54,7 @@ auto SquaredL2(const T &x, const ExportJ &Jx_or_bool, bool add_scale = true) {
     else
       return std::make_pair(l, (J * Jx_or_bool).eval());
   } else {  // scalar
-    return std::make_pair(l, add_scale ? T(2.0) * x : x);
+    return std::make_pair(l, ScalarJacobian(T(add_scale ? T(2.0) * x : x), Jx_or_bool));
   }
 }
 
@@ -75,7 +86,7 @@ auto L2(const T &x, const ExportJ &Jx_or_bool) {
     else
       return std::make_pair(l, (J.transpose() * Jx_or_bool).eval());
   } else {  // scalar
-    return std::make_pair(l, 1);
+    return std::make_pair(l, ScalarJacobian(x < T(0.0) ? T(-1.0) : T(1.0), Jx_or_bool));
   }
 }
 
@@ -106,9 +117,9 @@ auto L1(const T &x, const ExportJ &Jx_or_bool) {
     if constexpr (traits::is_bool_v<ExportJ>)
       return std::make_pair(l, RowVector<Scalar, DimsJ>(x.array().sign()));
     else
-      return std::make_pair(l, (x.array().sign() * Jx_or_bool).eval());
+      return std::make_pair(l, (x.array().sign().matrix().transpose() * Jx_or_bool).eval());
   } else {  // scalar
-    return std::make_pair(l, 1);
+    return std::make_pair(l, ScalarJacobian(x < T(0.0) ? T(-1.0) : T(1.0), Jx_or_bool));
   }
 }
 
@@ -146,9 +157,9 @@ auto Linf(const T &x, const ExportJ &Jx_or_bool) {
       return std::make_pair(l, (J * Jx_or_bool).eval());
   } else {  // scalar
     if (x >= 0)
-      return std::make_pair(x, T(1.0));
+      return std::make_pair(x, ScalarJacobian(T(1.0), Jx_or_bool));
     else
-      return std::make_pair(-x, T(-1.0));
+      return std::make_pair(T(-x), ScalarJacobian(T(-1.0), Jx_or_bool));
   }
 }
 
-- 
2.43.0


From 1d0b2f265642396a68795ac2cca977a3776ea7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:32 +0000
Subject: [PATCH 02/22] fix: cosine distance of vectors and its Jacobians

---
 include/tinyopt/distances.h | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/tinyopt/distances.h b/include/tinyopt/distances.h
index 0303056..d02ce61 100644
--- a/include/tinyopt/distances.h
+++ b/include/tinyopt/distances.h
@@ -67,24 +67,28 @@ auto Linf(const TA &a, const TB &b, const ExportJ &export_jac = nullptr) {
 /// Compute the cosine distance between `a` and `b`: d(a,b) = a ∠ b
 template <typename TA, typename TB, typename ExportJ = std::nullptr_t>
 auto Cosine(const TA &a, const TB &b, const ExportJ & = nullptr) {
-  if constexpr (traits::is_nullptr_v<ExportJ>) {
-    return TA(0);
-  } else if constexpr (traits::is_scalar_v<TA>) {
-    return std::make_tuple(TA(0), TA(0), TA(0));
+  if constexpr (traits::is_scalar_v<TA>) {
+    if constexpr (traits::is_nullptr_v<ExportJ>)
+      return TA(0);
+    else
+      return std::make_tuple(TA(0), TA(0), TA(0));
   } else {  // Vectors
     using Scalar = std::decay_t<typename TA::Scalar>;
-    constexpr double eps2 = FloatEpsilon2<Scalar>();
+    const auto eps2 = FloatEpsilon2<Scalar>();
     constexpr Index Dims = traits::params_trait<TA>::Dims;
     using Vec = RowVector<Scalar, Dims>;
-    const auto a_norm = a.norm();
-    const auto b_norm = b.norm();
-    if (a_norm * b_norm < eps2) {
-      return std::make_tuple(Scalar(0), Vec::Zero(a.size()), Vec::Zero(a.size()));
+    const Scalar a_norm = a.norm();
+    const Scalar b_norm = b.norm();
+    const bool valid = !(a_norm * b_norm < eps2);
+    const Scalar d = valid ? Scalar(a.dot(b) / (a_norm * b_norm)) : Scalar(0);
+    if constexpr (traits::is_nullptr_v<ExportJ>) {
+      return d;
     } else {
-      const auto ab = a.dot(b);
-      const auto d = (ab / (a_norm * b_norm));
-      Vec Ja = (b / (a_norm * b_norm)) - (ab * a / (a_norm * a_norm * a_norm * b_norm));
-      Vec Jb = (a / (a_norm * b_norm)) - (ab * b / (a_norm * b_norm * b_norm));
+      Vec Ja = Vec::Zero(a.size()), Jb = Vec::Zero(b.size());
+      if (valid) {
+        Ja = b.transpose() / (a_norm * b_norm) - d * a.transpose() / (a_norm * a_norm);
+        Jb = a.transpose() / (a_norm * b_norm) - d * b.transpose() / (b_norm * b_norm);
+      }
       return std::make_tuple(d, Ja, Jb);
     }
   }
-- 
2.43.0


From 5487192c07e9c4d8eabe1627524a224f9a47782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:32 +0000
Subject: [PATCH 03/22] fix: do not return an inverse for singular matrices

---
 include/tinyopt/math.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/tinyopt/math.h b/include/tinyopt/math.h
index ce90186..8518dcc 100644
--- a/include/tinyopt/math.h
+++ b/include/tinyopt/math.h
@@ -44,13 +44,16 @@ std::optional<
 DenseInvCov(const MatrixBase<Derived> &m) {
   using MatType =
       Matrix<typename Derived::Scalar, Derived::RowsAtCompileTime, Derived::ColsAtCompileTime>;
+  using Scalar = typename Derived::Scalar;
   if constexpr (Derived::ColsAtCompileTime == 1) {
-    return MatType(m.cwiseInverse().asDiagonal());
+    if (m.minCoeff() > Scalar(0)) return MatType(m.cwiseInverse().asDiagonal());
   } else if (m.cols() == 1) {
-    return MatType(m.inverse());  // un-protected here...
+    if (m(0, 0) > Scalar(0)) return MatType(m.inverse());
   } else if (m.cols() > 0) {
     const auto &chol = m.template selfadjointView<Upper>().ldlt();
-    if (chol.info() == Eigen::Success && chol.isPositive())
+    // A null pivot means that the matrix is singular
+    if (chol.info() == Eigen::Success && chol.isPositive() &&
+        chol.vectorD().minCoeff() > Scalar(0))
       return chol.solve(MatType::Identity(m.rows(), m.cols()));
   }
   return std::nullopt;
-- 
2.43.0


From aa98d0135bd92a7b9c3f4257a5129436bfad9ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:38:54 +0000
Subject: [PATCH 04/22] fix: whitening Jacobians for dynamic sizes and upper
 information matrices

---
 include/tinyopt/losses/mahalanobis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/losses/mahalanobis.h b/include/tinyopt/losses/mahalanobis.h
index d3067b0..510ad36 100644
--- a/include/tinyopt/losses/mahalanobis.h
+++ b/include/tinyopt/losses/mahalanobis.h
@@ -147,7 +147,7 @@ auto MahaWhitened(const MatrixBase<Derived> &res, const Cov_t &cov_stevs,
       if constexpr (traits::is_nullptr_v<ExportJ>)
         return res2;
       else if constexpr (traits::is_bool_v<ExportJ>)
-        return std::make_pair(res2, (chol.matrixL().solve(Mat::Identity())).eval());
+        return std::make_pair(res2, (chol.matrixL().solve(Mat::Identity(cov.rows(), cov.cols()))).eval());
       else
         return std::make_pair(res2, (chol.matrixL().solve(Jx_or_bool)).eval());
 
@@ -166,7 +166,7 @@ auto MahaWhitenedInfoU(const MatrixBase<Derived> &res, const MatrixBase<DerivedC
   if constexpr (traits::is_nullptr_v<ExportJ>)
     return res2;
   else if constexpr (traits::is_bool_v<ExportJ>)
-    return std::make_pair(res2, U.eval());
+    return std::make_pair(res2, UU.toDenseMatrix());
   else
     return std::make_pair(res2, (UU * Jx_or_bool).eval());
 }
-- 
2.43.0


From 4d728cf99f0e2d4b4a63f52a30cad8bac4b09618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:30 +0000
Subject: [PATCH 05/22] fix: export the derivative of activations of scalars
 and of (value, Jacobian) pairs

---
 include/tinyopt/losses/helpers.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/tinyopt/losses/helpers.h b/include/tinyopt/losses/helpers.h
index ec91122..c739d20 100644
--- a/include/tinyopt/losses/helpers.h
+++ b/include/tinyopt/losses/helpers.h
@@ -45,10 +45,14 @@
         return std::make_pair(l, Matrix<Scalar, DimsJ, DimsJ>(J));                                \
       }                                                                                           \
     } else { /* scalar */                                                                         \
-      if constexpr (HasJac) {                                                                     \
-        return std::make_pair(l, (0 /*TODO*/ * Jx_or_bool).matrix().eval());                      \
+      using Scalar = std::decay_t<T>;                                                             \
+      const Scalar J = name(Vector<Scalar, 1>(Vector<Scalar, 1>::Constant(x)), true).second(0, 0);\
+      if constexpr (std::is_scalar_v<ExportJ> && HasJac) {                                        \
+        return std::make_pair(l, Scalar(J * Jx_or_bool));                                         \
+      } else if constexpr (HasJac) {                                                              \
+        return std::make_pair(l, (J * Jx_or_bool).eval());                                        \
       } else {                                                                                    \
-        return std::make_pair(l, 0 /*TODO*/);                                                     \
+        return std::make_pair(l, J);                                                              \
       }                                                                                           \
     }                                                                                             \
   }
@@ -63,7 +67,7 @@
   template <typename T, typename ParamType = float>                                               \
   auto name(const T &x, ParamType a) {                                                            \
     if constexpr (traits::is_pair_v<T>) {                                                         \
-      return name(x.first, x.second, a);                                                          \
+      return name(x.first, a, x.second);                                                          \
     } else {                                                                                      \
       constexpr bool IsMatrix = traits::is_matrix_or_array_v<T> || traits::is_sparse_matrix_v<T>; \
       if constexpr (IsMatrix) { /* matrix */                                                      \
@@ -91,10 +95,14 @@
         return std::make_pair(l, Matrix<Scalar, DimsJ, DimsJ>(J));                                \
       }                                                                                           \
     } else { /* scalar */                                                                         \
-      if constexpr (HasJac) {                                                                     \
-        return std::make_pair(l, ((0 /*TODO*/) * Jx_or_bool).matrix().eval());                    \
+      using Scalar = std::decay_t<T>;                                                             \
+      const Scalar J = name(Vector<Scalar, 1>(Vector<Scalar, 1>::Constant(x)), a, true).second(0, 0);\
+      if constexpr (std::is_scalar_v<ExportJ> && HasJac) {                                        \
+        return std::make_pair(l, Scalar(J * Jx_or_bool));                                         \
+      } else if constexpr (HasJac) {                                                              \
+        return std::make_pair(l, (J * Jx_or_bool).eval());                                        \
       } else {                                                                                    \
-        return std::make_pair(l, 0 /*TODO*/);                                                     \
+        return std::make_pair(l, J);                                                              \
       }                                                                                           \
     }                                                                                             \
   }
-- 
2.43.0


From 84d25aedfca8c17ff9d488b0670dfb31ae50ad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:30 +0000
Subject: [PATCH 06/22] fix: softmax of a scalar and its derivative

---
 include/tinyopt/losses/classif.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/tinyopt/losses/classif.h b/include/tinyopt/losses/classif.h
index ae752f3..2803f30 100644
--- a/include/tinyopt/losses/classif.h
+++ b/include/tinyopt/losses/classif.h
@@ -22,9 +22,9 @@ auto Softmax(const T &x, const ExportJ &Jx_or_bool = nullptr) {
     if constexpr (std::is_null_pointer_v<ExportJ>)
       return 1;
     else if constexpr (traits::is_matrix_or_array_v<ExportJ>)
-      return std::make_pair(1, Jx_or_bool);
+      return std::make_pair(1, (Jx_or_bool * 0).eval());  // constant function
     else
-      return std::make_pair(1, 1);
+      return std::make_pair(1, 0);
   } else {  // Matrix
     using std::exp;
     using Scalar = typename T::Scalar;
@@ -56,11 +56,11 @@ auto SafeSoftmax(const T &x, const ExportJ &Jx_or_bool = nullptr) {
     return SafeSoftmax(x.first, x.second);
   } else if constexpr (!IsMatrix) {  // scalar
     if constexpr (std::is_null_pointer_v<ExportJ>)
-      return std::make_pair(1, 1);
+      return 1;
     else if constexpr (traits::is_matrix_or_array_v<ExportJ>)
-      return std::make_pair(1, Jx_or_bool);
+      return std::make_pair(1, (Jx_or_bool * 0).eval());  // constant function
     else
-      return 1;
+      return std::make_pair(1, 0);
   } else {  // Matrix
     using std::exp;
     using Scalar = typename T::Scalar;
-- 
2.43.0


From 43996a8e6bdfafb67a85a7f323f6d1f6aaaf20e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:30 +0000
Subject: [PATCH 07/22] fix: hyperbolic tangent of large values

---
 include/tinyopt/losses/activations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/losses/activations.h b/include/tinyopt/losses/activations.h
index cbb2131..8892add 100644
--- a/include/tinyopt/losses/activations.h
+++ b/include/tinyopt/losses/activations.h
@@ -18,7 +18,7 @@ DefineLoss(
 
 /// @brief Tanh = (e^x-e^-x)/(e^x+e^-x),   derivative = 1 - Tanh(x)^2
 DefineLoss(
-    Tanh, (exp(x) - exp(-x)) / (exp(x) + exp(-x)),
+    Tanh, tanh(x),
     l.unaryExpr([](auto x) -> Scalar { return Scalar(1.0) - x * x; }).reshaped().asDiagonal());
 
 /// @brief ReLU = max(0, x),  derivative = {x>0:1, x<=0:0}
-- 
2.43.0


From c3d8f6dafc25ede5ad80d9cee7faf209694c1b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:49:40 +0000
Subject: [PATCH 08/22] fix: update the second element of a pair with its own
 part of the step

---
 include/tinyopt/traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/traits.h b/include/tinyopt/traits.h
index a1d4601..853f0e6 100644
--- a/include/tinyopt/traits.h
+++ b/include/tinyopt/traits.h
@@ -344,7 +344,7 @@ struct params_trait<std::pair<T1, T2>> {
     if constexpr (Scalar2ParamsTraits::Dims == Dynamic)
       Scalar2ParamsTraits::PlusEq(v.second, delta.tail(Scalar2ParamsTraits::dims(v.second)));
     else
-      Scalar2ParamsTraits::PlusEq(v.first, delta.template tail<Scalar2ParamsTraits::Dims>());
+      Scalar2ParamsTraits::PlusEq(v.second, delta.template tail<Scalar2ParamsTraits::Dims>());
   }
 };
 
-- 
2.43.0


From 32e545b5994d3f97620bfd6538cf11f891fe891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:49:40 +0000
Subject: [PATCH 09/22] fix: give each dynamically sized element of a vector or
 array its own part of the step

---
 include/tinyopt/traits.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/traits.h b/include/tinyopt/traits.h
index 853f0e6..a02360b 100644
--- a/include/tinyopt/traits.h
+++ b/include/tinyopt/traits.h
@@ -246,6 +246,7 @@ struct params_trait<std::vector<_Scalar>> {
   }
   // Define update / manifold
   static void PlusEq(T& v, const auto& delta) {
+    [[maybe_unused]] Index offset = 0;
     for (std::size_t i = 0; i < v.size(); ++i) {
       if constexpr (std::is_scalar_v<Scalar> || ScalarParamsTraits::Dims == 1)
         v[i] += delta[i];
@@ -253,7 +254,9 @@ struct params_trait<std::vector<_Scalar>> {
         ScalarParamsTraits::PlusEq(
             v[i], delta.template segment<ScalarParamsTraits::Dims>(i * ScalarParamsTraits::Dims));
       } else {
-        ScalarParamsTraits::PlusEq(v[i], delta.segment(i, i * ScalarParamsTraits::dims(v[i])));
+        const Index dims_i = ScalarParamsTraits::dims(v[i]);
+        ScalarParamsTraits::PlusEq(v[i], delta.segment(offset, dims_i));
+        offset += dims_i;
       }
     }
   }
@@ -294,6 +297,7 @@ struct params_trait<std::array<_Scalar, N>> {
   }
   // Define update / manifold
   static void PlusEq(T& v, const auto& delta) {
+    [[maybe_unused]] Index offset = 0;
     for (std::size_t i = 0; i < N; ++i) {
       if constexpr (std::is_scalar_v<Scalar> || ScalarParamsTraits::Dims == 1)
         v[i] += delta[i];
@@ -301,7 +305,9 @@ struct params_trait<std::array<_Scalar, N>> {
         ScalarParamsTraits::PlusEq(
             v[i], delta.template segment<ScalarParamsTraits::Dims>(i * ScalarParamsTraits::Dims));
       } else {
-        ScalarParamsTraits::PlusEq(v[i], delta.segment(i, i * ScalarParamsTraits::dims(v[i])));
+        const Index dims_i = ScalarParamsTraits::dims(v[i]);
+        ScalarParamsTraits::PlusEq(v[i], delta.segment(offset, dims_i));
+        offset += dims_i;
       }
     }
   }
-- 
2.43.0


From 6005c5cdc0d1def9da3bd4b69af5402ef8427f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:15 +0000
Subject: [PATCH 10/22] fix: derive the number of inliers and outliers by
 rounding, not truncation

---
 include/tinyopt/cost.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/cost.h b/include/tinyopt/cost.h
index 98d8d8e..a20ffb4 100644
--- a/include/tinyopt/cost.h
+++ b/include/tinyopt/cost.h
@@ -3,6 +3,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <sstream>
 
 #include <tinyopt/log.h>
@@ -81,8 +82,8 @@ struct Cost {
   }
 
   bool isValid() const { return num_resisuals > 0 && cost != std::numeric_limits<Scalar>::max(); }
-  int NumInliers() const { return (int)(num_resisuals * inlier_ratio); }
-  int NumOutliers() const { return (int)(num_resisuals * (1.0f - inlier_ratio)); }
+  int NumInliers() const { return (int)std::lround(num_resisuals * inlier_ratio); }
+  int NumOutliers() const { return num_resisuals - NumInliers(); }
 
   void AddResiduals(int new_residuals, int new_inliers) {
     if (num_resisuals + new_residuals > 0)
-- 
2.43.0


From e08607e23204acc79f67a3d614086fdf813316ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:10:52 +0000
Subject: [PATCH 11/22] fix: count iterations and failures without wrapping
 around, and bound the number of solve attempts

---
 include/tinyopt/optimizers/optimizer.h | 2 +-
 include/tinyopt/output.h               | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index 0a2f138..e93334e 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -355,7 +355,7 @@ class Optimizer_ {
     // Solver linear a few times until it's enough
     const uint8_t max_tries =
         options_.max_consec_failures > 0 ? std::max<uint8_t>(1, options_.max_consec_failures) : 255;
-    for (; out.num_consec_failures <= max_tries;) {
+    for (int num_tries = 0; num_tries <= max_tries; ++num_tries) {
       // Accumulate residuals and jacobians
       if (solver_.Build(x, acc, resize_and_clear_solver)) {
         // Ok, let's try to solve for `dx` now
diff --git a/include/tinyopt/output.h b/include/tinyopt/output.h
index 30237e8..e8dbb88 100644
--- a/include/tinyopt/output.h
+++ b/include/tinyopt/output.h
@@ -113,10 +113,10 @@ struct Output {
    * @name Statistics
    * @{
    */
-  uint16_t num_residuals = 0;  ///< Final number of residuals
-  uint16_t num_iters = 0;      ///< Final number of iterations
-  uint8_t num_failures = 0;    ///< Final number of failures to decrease the error
-  uint8_t num_consec_failures =
+  int num_residuals = 0;  ///< Final number of residuals
+  int num_iters = 0;      ///< Final number of iterations
+  int num_failures = 0;   ///< Final number of failures to decrease the error
+  int num_consec_failures =
       0;  ///< Final number of the last consecutive failures to decrease the error
 
   TimePoint start_time =
-- 
2.43.0


From 908a32ba757004451d1c17550c144c43c750ada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:11:34 +0000
Subject: [PATCH 12/22] fix: rebuild the linear system when an optimizer is run
 again

---
 include/tinyopt/optimizers/optimizer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index e93334e..c2e9712 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -262,6 +262,8 @@ class Optimizer_ {
     std::optional<Vector<Scalar, Dims>> last_dx;
     bool last_was_success = true;  // Last iteration was a success
 
+    solver_.Rebuild(true);  // A previous run might have left the solver in evaluation-only mode
+
     // Run several optimization iterations
     for (int iter = 0; iter < max_iters; ++iter) {
       const auto t = tic();
-- 
2.43.0


From 2be58c09942a2e84446d62cc2dc52785322b5e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:11:34 +0000
Subject: [PATCH 13/22] fix: do not report a failed optimization as timed out

---
 include/tinyopt/optimizers/optimizer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index c2e9712..8976bf3 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -302,7 +302,8 @@ class Optimizer_ {
 
       // Check for a time out
       out.duration_ms += static_cast<float>(toc_ms(t));
-      if (options_.max_duration_ms > 0 && out.duration_ms > options_.max_duration_ms) {
+      if (options_.max_duration_ms > 0 && out.duration_ms > options_.max_duration_ms &&
+          out.Succeeded()) {  // keep reporting failures
         out.stop_reason = StopReason::kTimedOut;
       }
       // Iteration done
-- 
2.43.0


From 9b6d4c4b9689f593880363b49c15eb0345b1d924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:11:34 +0000
Subject: [PATCH 14/22] fix: report that numerical differentiation was used

---
 include/tinyopt/optimizers/optimizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index 8976bf3..c8948d3 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -170,7 +170,6 @@ class Optimizer_ {
         // TODO #pragma message("Your function cannot be auto-differentiated,
         // using numerical differentiation")
         Output out;
-        out.num_diff_used = true;
         if constexpr (SolverType::FirstOrder) {
           auto loss = diff::CreateNumDiffFunc1(x, cost_or_acc);
           out = OptimizeAcc(x, loss, max_iters);
@@ -178,6 +177,7 @@ class Optimizer_ {
           auto loss = diff::CreateNumDiffFunc2(x, cost_or_acc);
           out = OptimizeAcc(x, loss, max_iters);
         }
+        out.num_diff_used = true;
         return out;
       }
 #else
-- 
2.43.0


From 3f44c2d3e720fee7ef0ee48f92dcbc35f5712484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:47:18 +0000
Subject: [PATCH 15/22] fix: report the number of residuals of the accepted
 cost, used to rescale covariances

---
 include/tinyopt/optimizers/optimizer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tinyopt/optimizers/optimizer.h b/include/tinyopt/optimizers/optimizer.h
index c8948d3..10cf2d0 100644
--- a/include/tinyopt/optimizers/optimizer.h
+++ b/include/tinyopt/optimizers/optimizer.h
@@ -446,6 +446,7 @@ class Optimizer_ {
       if (iter > 0) solver_.GoodStep(options_.use_step_quality_approx ? rel_derr : 0.0f);
       out.num_consec_failures = 0;
       out.final_cost = cost;
+      out.num_residuals = cost.num_resisuals;
       out.final_rerr_dec = rel_derr;
     } else { /* BAD Step */
       solver_.BadStep();
-- 
2.43.0


From 03ef6f55c60ed616807c49f67691bd4b6d44bea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:39:55 +0000
Subject: [PATCH 16/22] fix: keep the damping disabled when its initial value
 is zero

---
 include/tinyopt/solvers/lm.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/solvers/lm.h b/include/tinyopt/solvers/lm.h
index 75da41d..6c4f7b9 100644
--- a/include/tinyopt/solvers/lm.h
+++ b/include/tinyopt/solvers/lm.h
@@ -132,7 +132,8 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
     if (bad_factor_ != options_.lm.bad_factor) s /= bad_factor_;
 
     prev_lambda_ = lambda_;
-    lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
+    if (options_.lm.damping_init > 0)  // keep the damping disabled otherwise
+      lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
     bad_factor_ = options_.lm.bad_factor;
   }
 
@@ -140,7 +141,8 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
   void BadStep(Scalar /*quality*/ = 0.0f) override {
     Scalar s = bad_factor_;  // Scale to apply on damping lambda
     prev_lambda_ = lambda_;
-    lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
+    if (options_.lm.damping_init > 0)  // keep the damping disabled otherwise
+      lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
     bad_factor_ *= options_.lm.bad_factor;
   }
 
-- 
2.43.0


From 2cf56d664443d9f5e73a6765e7fcd0aa3af61b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:39:55 +0000
Subject: [PATCH 17/22] fix: export the Hessian without the damping that was
 actually applied to it

---
 include/tinyopt/solvers/lm.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tinyopt/solvers/lm.h b/include/tinyopt/solvers/lm.h
index 6c4f7b9..79a5461 100644
--- a/include/tinyopt/solvers/lm.h
+++ b/include/tinyopt/solvers/lm.h
@@ -64,6 +64,7 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
         this->ResizeIfNeeded(x);
         this->clear();
       }
+      prev_lambda_ = 0;  // H is about to be rebuilt, un-damped
 
       // Accumulate residuals and update both gardient and Hessian approx (Jt*J)
       const bool success = this->Accumulate(x, acc_func);
@@ -114,6 +115,7 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
         else
           this->H_.coeffRef(i, i) *= s;
       }
+      prev_lambda_ = lambda_;  // H is now damped by this factor
     }
 
     return true;
@@ -131,7 +133,6 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
     // Check whether the previous 'bad' step was actually good and revert the last scaling
     if (bad_factor_ != options_.lm.bad_factor) s /= bad_factor_;
 
-    prev_lambda_ = lambda_;
     if (options_.lm.damping_init > 0)  // keep the damping disabled otherwise
       lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
     bad_factor_ = options_.lm.bad_factor;
@@ -140,7 +141,6 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
   /// Damping stategy for a bad step: decrease the damping factor \lambda
   void BadStep(Scalar /*quality*/ = 0.0f) override {
     Scalar s = bad_factor_;  // Scale to apply on damping lambda
-    prev_lambda_ = lambda_;
     if (options_.lm.damping_init > 0)  // keep the damping disabled otherwise
       lambda_ = std::clamp<Scalar>(lambda_ * s, options_.lm.damping_range[0], options_.lm.damping_range[1]);
     bad_factor_ *= options_.lm.bad_factor;
@@ -191,7 +191,7 @@ class SolverLM : public tinyopt::solvers::SolverGN<Hessian_t> {
  protected:
   const Options options_;
   Scalar lambda_ = 1e-4f;              ///< Initial damping factor  (\lambda)
-  Scalar prev_lambda_ = 0.0f;          ///< Previous damping factor  (0 at start)
+  Scalar prev_lambda_ = 0.0f;          ///< Damping factor applied to H (0 if un-damped)
   Scalar bad_factor_ = 2.0f;           ///< Current damping scaling factor for bad steps
   bool rebuild_linear_system_ = true;  ///< Whether the linear system (H and gradient) have to be
                                        ///< rebuilt or a simple evaluation can do it.
-- 
2.43.0


From 251938983e585de7abd09fa18d9f7db71e48583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:48:03 +0000
Subject: [PATCH 18/22] fix: residuals that do not depend on dynamically sized
 parameters have a null derivative

---
 include/tinyopt/diff/optimize_autodiff.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/tinyopt/diff/optimize_autodiff.h b/include/tinyopt/diff/optimize_autodiff.h
index 64881f3..1cf8d18 100644
--- a/include/tinyopt/diff/optimize_autodiff.h
+++ b/include/tinyopt/diff/optimize_autodiff.h
@@ -88,6 +88,14 @@ inline auto OptimizeWithAutoDiff(X_t &x, const ResidualsFunc &residuals,
     }
   };
 
+  // Copy the derivatives of one residual, none if it is not connected to the parameters
+  auto set_row = [&](auto &&row, const auto &v) {
+    if (v.size() == dims)
+      row = v;
+    else
+      row.setZero();
+  };
+
   auto acc = [&](const auto &x, auto &grad, auto &H) {
     using H_t = decltype(H);
     constexpr bool HasGrad = !traits::is_nullptr_v<decltype(grad)>;
@@ -109,7 +117,8 @@ inline auto OptimizeWithAutoDiff(X_t &x, const ResidualsFunc &residuals,
     if constexpr (traits::is_scalar_v<ResType>) {  // One residual
       if constexpr (HasGrad) {
         // Update H and gradient
-        const auto &J = res.v;
+        Vector<Scalar, Dims> J(dims);
+        set_row(J, res.v);
         if constexpr (std::is_floating_point_v<X_t>) {
           grad[0] = J[0] * res.a;
           if constexpr (HasH) H(0, 0) = J[0] * J[0];
@@ -131,18 +140,18 @@ inline auto OptimizeWithAutoDiff(X_t &x, const ResidualsFunc &residuals,
           for (int c = 0; c < res.cols(); ++c)
             for (int r = 0; r < res.rows(); ++r) {
               const Index i = r + c * res.rows();
-              if constexpr (HasGrad) J.row(i) = res(r, c).v;
+              if constexpr (HasGrad) set_row(J.row(i), res(r, c).v);
               res_f[i] = res(r, c).a;
             }
         } else {  // Vector
           for (Index i = 0; i < res_size; ++i) {
-            if constexpr (HasGrad) J.row(i) = res[i].v;
+            if constexpr (HasGrad) set_row(J.row(i), res[i].v);
             res_f[i] = res[i].a;
           }
         }
       } else {  // scalar
         for (Index i = 0; i < res_size; ++i) {
-          if constexpr (HasGrad) J.row(i) = res.v;
+          if constexpr (HasGrad) set_row(J.row(i), res.v);
           res_f[i] = res.a;
         }
       }
-- 
2.43.0


From b312bf855092836d19e9fda7bcb90688e63989b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:54:13 +0000
Subject: [PATCH 19/22] fix: gradient checks reject gradients and Hessians with
 NaN entries

---
 include/tinyopt/diff/gradient_check.h | 4 ++--
 include/tinyopt/math.h                | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tinyopt/diff/gradient_check.h b/include/tinyopt/diff/gradient_check.h
index 8be968d..4f97014 100644
--- a/include/tinyopt/diff/gradient_check.h
+++ b/include/tinyopt/diff/gradient_check.h
@@ -94,7 +94,7 @@ inline bool CheckGradient(
   };
 
   const auto grad_num = EstimateNumJac(x, f, method, eps / 10.0f).transpose().eval();
-  const double max_dist = (grad_num - grad).cwiseAbs().maxCoeff();
+  const double max_dist = (grad_num - grad).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>();
   const bool is_within_tol = max_dist < eps;
   if (!is_within_tol && verbose)
     TINYOPT_LOG("Wrong gradient {:.3e}>eps. \nGradient:{}, Numerial Gradient:{}", max_dist, grad,
@@ -203,7 +203,7 @@ inline bool CheckResidualsGradient(
 
     double max_dist;
     if constexpr (DenseH)
-      max_dist = (H_num - H).cwiseAbs().maxCoeff();
+      max_dist = (H_num - H).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>();
     else {
       MaybeHessian_t H_num_sparse = H_num.sparseView();
       H_num_sparse.makeCompressed();
diff --git a/include/tinyopt/math.h b/include/tinyopt/math.h
index 8518dcc..fdfcc8e 100644
--- a/include/tinyopt/math.h
+++ b/include/tinyopt/math.h
@@ -346,7 +346,7 @@ T MaxAbsDiff(const Eigen::SparseMatrix<T> &mat1, const Eigen::SparseMatrix<T> &m
         }
       }
       T diff = std::abs(val1 - val2);
-      maxDiff = std::max(maxDiff, diff);
+      if (diff > maxDiff || std::isnan(diff)) maxDiff = diff;
     }
   }
 
@@ -366,7 +366,7 @@ T MaxAbsDiff(const Eigen::SparseMatrix<T> &mat1, const Eigen::SparseMatrix<T> &m
       }
       if (!found) {  // if the element was not found in mat1
         T diff = std::abs(val1 - val2);
-        maxDiff = std::max(maxDiff, diff);
+        if (diff > maxDiff || std::isnan(diff)) maxDiff = diff;
       }
     }
   }
-- 
2.43.0


From 879eb2623c04f7325dc76e06dfcc8835cca4c00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:54:48 +0000
Subject: [PATCH 20/22] fix: numerical differentiation of matrix residuals

---
 include/tinyopt/diff/num_diff.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/tinyopt/diff/num_diff.h b/include/tinyopt/diff/num_diff.h
index 25f1f9f..5c1694e 100644
--- a/include/tinyopt/diff/num_diff.h
+++ b/include/tinyopt/diff/num_diff.h
@@ -119,7 +119,7 @@ auto NumEval(const X_t &x, const Func &f, const diff::Method &method = diff::Met
       if constexpr (std::is_scalar_v<ResType2>)
         J[r] = (res_plus - res) / h;
       else
-        J.col(r) = (res_plus.reshaped() - res) / h;
+        J.col(r) = (res_plus.reshaped() - res.reshaped()) / h;
     }
   }
   return std::make_pair(res, J);
@@ -206,7 +206,10 @@ auto CreateNumDiffFunc1(X_t &, const ResidualsFunc &residuals,
 
     if constexpr (HasGrad) {
       const auto J = EstimateNumJac(x, residuals, method, h);
-      grad = J.transpose() * res;
+      if constexpr (std::is_scalar_v<std::decay_t<decltype(res)>>)
+        grad = J.transpose() * res;
+      else
+        grad = J.transpose() * res.reshaped();
     }
 
     using ResType = typename std::decay_t<decltype(res)>;
@@ -293,7 +296,10 @@ auto CreateNumDiffFunc2(X_t &, const ResidualsFunc &residuals,
 
     if constexpr (HasGrad) {
       const auto J = EstimateNumJac(x, residuals, method, h);
-      grad = J.transpose() * res;
+      if constexpr (std::is_scalar_v<std::decay_t<decltype(res)>>)
+        grad = J.transpose() * res;
+      else
+        grad = J.transpose() * res.reshaped();
       if constexpr (HasH) H = J.transpose() * J;
     }
 
-- 
2.43.0


From d45ec09826c5b764eab12cfbfd7cf6085220bc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:00 +0000
Subject: [PATCH 21/22] fix: hypot, fma, lerp, midpoint, fmax, fmin and pow of
 dynamically sized Jets

---
 include/tinyopt/3rdparty/ceres/jet.h | 46 +++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/include/tinyopt/3rdparty/ceres/jet.h b/include/tinyopt/3rdparty/ceres/jet.h
index e8b1030..9c48684 100644
--- a/include/tinyopt/3rdparty/ceres/jet.h
+++ b/include/tinyopt/3rdparty/ceres/jet.h
@@ -300,6 +300,17 @@ struct Jet {
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 };
 
+namespace internal {
+// Sum of dynamically sized derivatives, which are empty for constants
+template <typename T>
+inline Eigen::Matrix<T, Eigen::Dynamic, 1> AddV(const Eigen::Matrix<T, Eigen::Dynamic, 1>& f,
+                                                const Eigen::Matrix<T, Eigen::Dynamic, 1>& g) {
+  if (f.size() == 0) return g;
+  if (g.size() == 0) return f;
+  return f + g;
+}
+}  // namespace internal
+
 // Unary +
 template <typename T, int N>
 inline Jet<T, N> const& operator+(const Jet<T, N>& f) {
@@ -761,7 +772,10 @@ inline Jet<T, N> hypot(const Jet<T, N>& x, const Jet<T, N>& y) {
   // d/dx sqrt(x^2 + y^2) = 0.5 / sqrt(x^2 + y^2) * 2x = x / sqrt(x^2 + y^2)
   // d/dy sqrt(x^2 + y^2) = y / sqrt(x^2 + y^2)
   const T tmp = hypot(x.a, y.a);
-  return Jet<T, N>(tmp, x.a / tmp * x.v + y.a / tmp * y.v);
+  if constexpr (N != Eigen::Dynamic)
+    return Jet<T, N>(tmp, x.a / tmp * x.v + y.a / tmp * y.v);
+  else
+    return Jet<T, N>(tmp, internal::AddV<T>(x.a / tmp * x.v, y.a / tmp * y.v));
 }
 
 // Like sqrt(x^2 + y^2 + z^2),
@@ -781,7 +795,11 @@ inline Jet<T, N> hypot(const Jet<T, N>& x,
   // d/dy sqrt(x^2 + y^2 + z^2) = y / sqrt(x^2 + y^2 + z^2)
   // d/dz sqrt(x^2 + y^2 + z^2) = z / sqrt(x^2 + y^2 + z^2)
   const T tmp = hypot(x.a, y.a, z.a);
-  return Jet<T, N>(tmp, x.a / tmp * x.v + y.a / tmp * y.v + z.a / tmp * z.v);
+  if constexpr (N != Eigen::Dynamic)
+    return Jet<T, N>(tmp, x.a / tmp * x.v + y.a / tmp * y.v + z.a / tmp * z.v);
+  else
+    return Jet<T, N>(tmp, internal::AddV<T>(internal::AddV<T>(x.a / tmp * x.v, y.a / tmp * y.v),
+                                            z.a / tmp * z.v));
 }
 
 // Like x * y + z but rounded only once.
@@ -792,7 +810,11 @@ inline Jet<T, N> fma(const Jet<T, N>& x,
   // d/dx fma(x, y, z) = y
   // d/dy fma(x, y, z) = x
   // d/dz fma(x, y, z) = 1
-  return Jet<T, N>(fma(x.a, y.a, z.a), y.a * x.v + x.a * y.v + z.v);
+  if constexpr (N != Eigen::Dynamic)
+    return Jet<T, N>(fma(x.a, y.a, z.a), y.a * x.v + x.a * y.v + z.v);
+  else
+    return Jet<T, N>(fma(x.a, y.a, z.a),
+                     internal::AddV<T>(internal::AddV<T>(y.a * x.v, x.a * y.v), z.v));
 }
 
 // Return value of fmax() and fmin() on equality
@@ -1188,8 +1210,13 @@ template <typename T, int N>
 inline Jet<T, N> lerp(const Jet<T, N>& a,
                       const Jet<T, N>& b,
                       const Jet<T, N>& t) {
-  return Jet<T, N>{lerp(a.a, b.a, t.a),
-                   (T(1) - t.a) * a.v + t.a * b.v + (b.a - a.a) * t.v};
+  if constexpr (N != Eigen::Dynamic)
+    return Jet<T, N>{lerp(a.a, b.a, t.a),
+                     (T(1) - t.a) * a.v + t.a * b.v + (b.a - a.a) * t.v};
+  else
+    return Jet<T, N>{lerp(a.a, b.a, t.a),
+                     internal::AddV<T>(internal::AddV<T>((T(1) - t.a) * a.v, t.a * b.v),
+                                       (b.a - a.a) * t.v)};
 }
 
 // Computes the midpoint a + (b - a) / 2.
@@ -1207,6 +1234,14 @@ inline Jet<T, N> midpoint(const Jet<T, N>& a, const Jet<T, N>& b) {
   Jet<T, N> result{midpoint(a.a, b.a)};
   // To avoid overflow in the differential, compute
   // (da + db) / 2 using midpoint.
+  if constexpr (N == Eigen::Dynamic) {
+    // Constants have no derivatives
+    if (a.v.size() != b.v.size()) {
+      result.v = (a.v.size() > 0 ? a.v : b.v) / T(2);
+      return result;
+    }
+    result.v.resize(a.v.size());
+  }
   const int n = N != Eigen::Dynamic ? N : a.v.size();
   for (int i = 0; i < n; ++i) {
     result.v[i] = midpoint(a.v[i], b.v[i]);
@@ -1282,6 +1317,7 @@ inline Jet<T, N> pow(T f, const Jet<T, N>& g) {
     if (f < 0 && g == floor(g.a)) {  // Handle case 3.
       result = Jet<T, N>(pow(f, g.a));
       const int n = N != Eigen::Dynamic ? N : g.v.size();
+      if constexpr (N == Eigen::Dynamic) result.v.setZero(n);
       for (int i = 0; i < n; i++) {
         if (fpclassify(g.v[i]) != FP_ZERO) {
           // Return a NaN when g.v != 0.
-- 
2.43.0


From 413b9eafe4007e344b57b5afc2a4bac2bbe6d117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:30:26 +0000
Subject: [PATCH 22/22] fix: do not throw when logging the standard deviation
 of a non invertible Gauss-Newton Hessian

---
 include/tinyopt/solvers/gn.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/tinyopt/solvers/gn.h b/include/tinyopt/solvers/gn.h
index e0e3015..d34ddf0 100644
--- a/include/tinyopt/solvers/gn.h
+++ b/include/tinyopt/solvers/gn.h
@@ -176,10 +176,13 @@ class SolverGN
   /// H being the damped Hessian H_ if use_damped == true (faster) or un-damped Hessian() (accurate)
   Scalar MaxStdDev(bool use_damped = true) const {
     const auto &H = use_damped ? H_ : Hessian();
+    const auto I = InvCov(H);
+    if (!I) return 0;  // H is not invertible
+    using std::sqrt;
     if constexpr (traits::is_sparse_matrix_v<H_t>)
-      return sqrt(InvCov(H).value().coeffs().maxCoeff());
+      return sqrt(I.value().coeffs().maxCoeff());
     else
-      return sqrt(InvCov(H).value().maxCoeff());
+      return sqrt(I.value().maxCoeff());
   }
 
   /// Latest Covariance estimate
-- 
2.43.0

