From 24e1c6cc9bc58dc332f4a4da049b110f1c0306c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 01/28] fix: check the stopping criteria on every iteration
 when stop_check_iter is 1

iter % 1 == 1 never holds, so a solver configured to check every iteration
never checked at all and did not terminate without max_iter.
---
 include/smooth/feedback/qp_solver.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 4f98562..35e43c8 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -462,7 +462,7 @@ public:
         ldlt_.ldlt.solveInPlace(p_);
       }
 
-      if (iter % prm_.stop_check_iter == 1) {
+      if (iter % prm_.stop_check_iter == 1 % prm_.stop_check_iter) {
         // termination checking requires difference, store old scaled values
         dx_us_ = sol_.primal, dy_us_ = sol_.dual;
       }
@@ -476,7 +476,7 @@ public:
                 - rho_.cwiseProduct(z_next_);
       std::swap(z_, z_next_);
 
-      if (iter % prm_.stop_check_iter == 1) {
+      if (iter % prm_.stop_check_iter == 1 % prm_.stop_check_iter) {
         // unscale solution
         x_us_  = sx_.cwiseProduct(sol_.primal);
         y_us_  = sy_.cwiseProduct(sol_.dual) / c_;
-- 
2.43.0


From 4ea9617bd5561cc42ada6e5b9a3de61ce44cd73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:44 +0000
Subject: [PATCH 02/28] fix: report PolishFailed when polishing fails

sol_.code was overwritten with ret_code right after polishing.
---
 include/smooth/feedback/qp_solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 35e43c8..c218e4e 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -534,7 +534,7 @@ public:
 
       } else {
         if (prm_.verbose) { std::cout << "Polish failed" << '\n'; }
-        sol_.code = QPSolutionStatus::PolishFailed;
+        ret_code = QPSolutionStatus::PolishFailed;
       }
     }
 
-- 
2.43.0


From 464fd27188f2a3c54a4d639c2b7d22811afd13bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:44 +0000
Subject: [PATCH 03/28] fix: redo the symbolic factorization after analyze()

A sparse solver that had already solved a problem kept the factorization
pattern of the old problem when re-analyzed, reading and writing out of bounds.
---
 include/smooth/feedback/qp_solver.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index c218e4e..ec760dd 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -326,6 +326,9 @@ public:
     Aty_.resize(n);
     Ax_.resize(m);
 
+    // sparsity pattern may have changed
+    ldlt_.first = true;
+
     // preallocate nonzeros in H
     H_.setZero();
     H_.resize(k, k);
-- 
2.43.0


From 0e8b688ec6dac59c662a3de96d424243ee5dcba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:44 +0000
Subject: [PATCH 04/28] fix: allow warmstarting from the solver's own solution

solve(pbm, solver.sol()) computed z from the already rescaled primal.
---
 include/smooth/feedback/qp_solver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index ec760dd..ac28e13 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -438,9 +438,10 @@ public:
     // initialize solver variables
     if (warmstart.has_value()) {
       // warmstart variables must be scaled
+      // NOTE warmstart may refer to sol_, so it must be read before being overwritten
+      z_.noalias() = sy_.asDiagonal() * pbm.A * warmstart.value().get().primal;
       sol_.primal  = sx_.cwiseInverse().cwiseProduct(warmstart.value().get().primal);
       sol_.dual    = c_ * sy_.cwiseInverse().cwiseProduct(warmstart.value().get().dual);
-      z_.noalias() = sy_.asDiagonal() * pbm.A * warmstart.value().get().primal;
     } else {
       sol_.primal.setZero();
       sol_.dual.setZero();
-- 
2.43.0


From d73335e96b996cb909cf79a0ce40d33375ca1613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:44 +0000
Subject: [PATCH 05/28] fix: require a descent direction as certificate of dual
 infeasibility

Without strict descent any recession direction qualified, so problems with an
optimal solution (e.g. P = 0, q = 0, x >= 100) were declared dual infeasible.
---
 include/smooth/feedback/qp_solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index ac28e13..e3cb1ed 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -631,7 +631,7 @@ protected:
     Px_.noalias()        = pbm.P * dx_us_;
 
     bool dual_infeasible =
-      (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) <= prm_.eps_dual_inf * dx_norm);
+      (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) < -prm_.eps_dual_inf * dx_norm);
     for (auto i = 0u; i != m && dual_infeasible; ++i) {
       if (pbm.u(i) == inf) {
         dual_infeasible &= (Ax_(i) >= -prm_.eps_dual_inf * dx_norm);
-- 
2.43.0


From 5dd721eee765777b06537d1ec0c9c19751095b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:44 +0000
Subject: [PATCH 06/28] fix: require a separating direction as certificate of
 primal infeasibility

A direction with A' dy ~ 0 and u' dy+ + l' dy- ~ 0 exists for feasible problems
with dependent constraints and does not certify infeasibility.
---
 include/smooth/feedback/qp_solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index e3cb1ed..4b76970 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -620,7 +620,7 @@ protected:
       }
     }
 
-    if (std::max<Scalar>(norm(Aty_), u_dyp_plus_l_dyn) < prm_.eps_primal_inf * Edy_norm) {
+    if (norm(Aty_) < prm_.eps_primal_inf * Edy_norm && u_dyp_plus_l_dyn < -prm_.eps_primal_inf * Edy_norm) {
       return QPSolutionStatus::PrimalInfeasible;
     }
 
-- 
2.43.0


From 88a0495ce96ca2f51e8de640db275f2c2796759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:46 +0000
Subject: [PATCH 07/28] fix: use only the upper triangular part of P everywhere

The documentation says only the upper triangular part of P is used, but the
stopping criteria, the objective and the scaling used the full matrix, so an
upper triangular P gave wrong results or no convergence.
---
 include/smooth/feedback/qp_solver.hpp | 30 +++++++++++++++++----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 4b76970..5853243 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -496,9 +496,9 @@ public:
           // clang-format off
           cout << setw(7) << right << iter << ":"
             << std::scientific
-            << setw(14) << right << (0.5 * pbm.P * x_us_ + pbm.q).dot(x_us_)
+            << setw(14) << right << (0.5 * mul_P(pbm, x_us_) + pbm.q).dot(x_us_)
             << setw(14) << right << (pbm.A * x_us_ - z_us_).template lpNorm<Eigen::Infinity>()
-            << setw(14) << right << (pbm.P * x_us_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
+            << setw(14) << right << (mul_P(pbm, x_us_) + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
             << setw(10) << right << duration_cast<microseconds>(std::chrono::high_resolution_clock::now() - t0).count()
             << '\n';
           // clang-format on
@@ -528,9 +528,9 @@ public:
           // clang-format off
           cout << setw(8) << right << "polish:"
             << std::scientific
-            << setw(14) << right << (0.5 * pbm.P * x_us_ + pbm.q).dot(x_us_)
+            << setw(14) << right << (0.5 * mul_P(pbm, x_us_) + pbm.q).dot(x_us_)
             << setw(14) << right << (pbm.A * x_us_ - z_us_).template lpNorm<Eigen::Infinity>()
-            << setw(14) << right << (pbm.P * x_us_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
+            << setw(14) << right << (mul_P(pbm, x_us_) + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
             << setw(10) << right << duration_cast<microseconds>(std::chrono::high_resolution_clock::now() - t0).count()
             << '\n';
           // clang-format on
@@ -548,7 +548,8 @@ public:
     sol_.code      = ret_code.value_or(QPSolutionStatus::MaxIterations);
     sol_.primal    = sx_.cwiseProduct(sol_.primal);
     sol_.dual      = sy_.cwiseProduct(sol_.dual) / c_;
-    sol_.objective = sol_.primal.dot(0.5 * pbm.P * sol_.primal + pbm.q);
+    Px_.noalias()  = pbm.P.template selfadjointView<Eigen::Upper>() * sol_.primal;
+    sol_.objective = sol_.primal.dot(0.5 * Px_ + pbm.q);
     sol_.iter      = iter;
 
     if (prm_.verbose) {
@@ -572,6 +573,11 @@ public:
   }
 
 protected:
+  /**
+   * @brief Calculate P * x using only the upper triangular part of P.
+   */
+  static Rn mul_P(const Pbm & pbm, const Rn & x) { return pbm.P.template selfadjointView<Eigen::Upper>() * x; }
+
   /**
    * @brief Check stopping criteria for solver.
    */
@@ -590,7 +596,7 @@ protected:
     Ax_ -= z_us_;
     if (norm(Ax_) <= prm_.eps_abs + prm_.eps_rel * std::max<Scalar>(Ax_norm, norm(z_us_))) {
       // primal succeeded, check dual
-      Px_.noalias()           = pbm.P * x_us_;
+      Px_.noalias()           = pbm.P.template selfadjointView<Eigen::Upper>() * x_us_;
       Aty_.noalias()          = pbm.A.transpose() * y_us_;
       const Scalar dual_scale = std::max<Scalar>({norm(Px_), norm(pbm.q), norm(Aty_)});
       Px_ += pbm.q + Aty_;
@@ -628,7 +634,7 @@ protected:
 
     Ax_.noalias()        = pbm.A * dx_us_;  // note new value A * dx
     const Scalar dx_norm = norm(dx_us_);
-    Px_.noalias()        = pbm.P * dx_us_;
+    Px_.noalias()        = pbm.P.template selfadjointView<Eigen::Upper>() * dx_us_;
 
     bool dual_infeasible =
       (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) < -prm_.eps_dual_inf * dx_norm);
@@ -684,7 +690,9 @@ protected:
     // find "norm" of cost function
     for (auto i = 0u; i < pbm.P.outerSize(); ++i) {
       for (Eigen::InnerIterator it(pbm.P, i); it; ++it) {
+        if (it.row() > it.col()) { continue; }  // only upper triangular part is used
         sx_inc_(it.col()) = std::max(sx_inc_(it.col()), std::fabs(it.value()));
+        sx_inc_(it.row()) = std::max(sx_inc_(it.row()), std::fabs(it.value()));
       }
     }
 
@@ -704,11 +712,11 @@ protected:
       sy_inc_.setZero();
       for (auto k = 0u; k < pbm.P.outerSize(); ++k) {
         for (Eigen::InnerIterator it(pbm.P, k); it; ++it) {
+          if (it.row() > it.col()) { continue; }  // only upper triangular part is used
           // upper left block of H
-          sx_inc_(it.col()) = std::max({
-            sx_inc_(it.col()),
-            std::fabs(c_ * sx_(it.row()) * sx_(it.col()) * it.value()),
-          });
+          const Scalar Pij  = std::fabs(c_ * sx_(it.row()) * sx_(it.col()) * it.value());
+          sx_inc_(it.col()) = std::max(sx_inc_(it.col()), Pij);
+          sx_inc_(it.row()) = std::max(sx_inc_(it.row()), Pij);
         }
       }
       for (auto k = 0u; k < pbm.A.outerSize(); ++k) {
-- 
2.43.0


From fb078004d93236eb37d584738d56e7343e6a7c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:31 +0000
Subject: [PATCH 08/28] fix: discard polished solutions that are not optimal

Polishing solves for a guess of the active constraints. With a wrong guess the
result can violate the other constraints, e.g. P = 0, q = 0, 1 <= x <= 2 gave
x = 0 with code Optimal. Keep the unpolished solution in that case.
---
 include/smooth/feedback/qp_solver.hpp | 35 +++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 5853243..25c882f 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -517,7 +517,9 @@ public:
 
     // polish solution if optimal
     if (ret_code.has_value() && ret_code.value() == QPSolutionStatus::Optimal && prm_.polish) {
-      if (detail::polish_qp(pbm, sol_, prm_, c_, sx_, sy_)) {
+      const Rn primal = sol_.primal;
+      const Rm dual   = sol_.dual;
+      if (detail::polish_qp(pbm, sol_, prm_, c_, sx_, sy_) && polished_optimal(pbm)) {
         if (prm_.verbose) {
           // unscale solution
           x_us_ = sx_.cwiseProduct(sol_.primal);
@@ -538,7 +540,9 @@ public:
 
       } else {
         if (prm_.verbose) { std::cout << "Polish failed" << '\n'; }
-        ret_code = QPSolutionStatus::PolishFailed;
+        sol_.primal = primal;
+        sol_.dual   = dual;
+        ret_code    = QPSolutionStatus::PolishFailed;
       }
     }
 
@@ -578,6 +582,33 @@ protected:
    */
   static Rn mul_P(const Pbm & pbm, const Rn & x) { return pbm.P.template selfadjointView<Eigen::Upper>() * x; }
 
+  /**
+   * @brief Check that the polished (scaled) solution satisfies the optimality criterion.
+   *
+   * Polishing relies on a guess of the active constraints; if it is wrong the polished solution may
+   * violate other constraints or have multipliers of the wrong sign.
+   */
+  bool polished_optimal(const Pbm & pbm)
+  {
+    static const auto norm = [](auto && t) -> Scalar { return t.template lpNorm<Eigen::Infinity>(); };
+
+    x_us_ = sx_.cwiseProduct(sol_.primal);
+    y_us_ = sy_.cwiseProduct(sol_.dual) / c_;
+
+    // feasible with complementary multipliers iff Ax = proj_[l, u](Ax + y)
+    Ax_.noalias()        = pbm.A * x_us_;
+    z_us_                = (Ax_ + y_us_).cwiseMax(pbm.l).cwiseMin(pbm.u);
+    const Scalar Ax_norm = norm(Ax_);
+    Ax_ -= z_us_;
+    if (!(norm(Ax_) <= prm_.eps_abs + prm_.eps_rel * std::max<Scalar>(Ax_norm, norm(z_us_)))) { return false; }
+
+    Px_.noalias()           = pbm.P.template selfadjointView<Eigen::Upper>() * x_us_;
+    Aty_.noalias()          = pbm.A.transpose() * y_us_;
+    const Scalar dual_scale = std::max<Scalar>({norm(Px_), norm(pbm.q), norm(Aty_)});
+    Px_ += pbm.q + Aty_;
+    return norm(Px_) <= prm_.eps_abs + prm_.eps_rel * dual_scale;
+  }
+
   /**
    * @brief Check stopping criteria for solver.
    */
-- 
2.43.0


From 365d7316777b3ec922b9d1f70430c198ad23a861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:34 +0000
Subject: [PATCH 09/28] fix: zero the addressed entries of compressed block
 expressions

---
 include/smooth/feedback/utils/sparse.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/utils/sparse.hpp b/include/smooth/feedback/utils/sparse.hpp
index 11718e2..625c7c9 100644
--- a/include/smooth/feedback/utils/sparse.hpp
+++ b/include/smooth/feedback/utils/sparse.hpp
@@ -7,6 +7,7 @@
  * @brief Sparse matrix utilities.
  */
 
+#include <algorithm>
 #include <numeric>
 #include <optional>
 
@@ -140,7 +141,9 @@ template<typename SparseMat>
 inline void set_zero(SparseMat && mat)
 {
   if (mat.isCompressed()) {
-    mat.coeffs().setZero();
+    // NOTE the values of a block expression do not begin at valuePtr()
+    const auto begin = mat.outerIndexPtr() ? mat.outerIndexPtr()[0] : 0;
+    std::fill_n(mat.valuePtr() + begin, mat.nonZeros(), 0);
   } else {
     for (auto i = 0; i < mat.outerSize(); ++i) {
       for (typename std::decay_t<decltype(mat)>::InnerIterator it(mat, i); it; ++it) { it.valueRef() = 0; }
-- 
2.43.0


From 8730524e67262109f0bedfa8993d215af033c1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 10/28] fix: EKF update with a one-dimensional state and
 several measurements

The product of a column vector and a 1x1 self-adjoint view drops rows in Eigen, so the
innovation covariance was wrong. Materialize the symmetric covariance first.
---
 include/smooth/feedback/ekf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/ekf.hpp b/include/smooth/feedback/ekf.hpp
index bd33847..44ffb29 100644
--- a/include/smooth/feedback/ekf.hpp
+++ b/include/smooth/feedback/ekf.hpp
@@ -127,7 +127,7 @@ public:
     static_assert(Ny > 0, "h(x) must be statically sized");
 
     const Eigen::Matrix<Scalar<G>, Ny, Ny> S =
-      (H * P_.template selfadjointView<Eigen::Upper>() * H.transpose() + R).template triangularView<Eigen::Upper>();
+      (H * CovT(P_.template selfadjointView<Eigen::Upper>()) * H.transpose() + R).template triangularView<Eigen::Upper>();
 
     // solve for Kalman gain
     const Eigen::Matrix<Scalar<G>, Dof<G>, Ny> K =
-- 
2.43.0


From c542c35cd0b42eaee95a11d0636a1debb1317435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 11/28] fix: give the first part of a split interval the
 minimal degree

---
 include/smooth/feedback/collocation/mesh.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/smooth/feedback/collocation/mesh.hpp b/include/smooth/feedback/collocation/mesh.hpp
index f8c9f09..0316020 100644
--- a/include/smooth/feedback/collocation/mesh.hpp
+++ b/include/smooth/feedback/collocation/mesh.hpp
@@ -153,6 +153,8 @@ public:
       const double tauf = i + 1 < intervals_.size() ? intervals_[i + 1].tau0 : 1.;
       const double taum = (tauf - tau0) / static_cast<double>(n);
 
+      intervals_[i].K = Kmin;
+
       while (n-- > 1) {
         intervals_.insert(
           std::next(intervals_.begin(), static_cast<intptr_t>(i + 1)),
-- 
2.43.0


From 828ed82776aeae196b708a77cd1c9ca4951f704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 12/28] fix: scale derivatives evaluated on a mesh to its time
 scale

---
 include/smooth/feedback/collocation/mesh.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/smooth/feedback/collocation/mesh.hpp b/include/smooth/feedback/collocation/mesh.hpp
index 0316020..0f1a9e8 100644
--- a/include/smooth/feedback/collocation/mesh.hpp
+++ b/include/smooth/feedback/collocation/mesh.hpp
@@ -7,6 +7,7 @@
  * @brief Refinable Legendre-Gauss-Radau mesh of time interval [0, 1]
  */
 
+#include <cmath>
 #include <ranges>
 #include <span>
 #include <vector>
@@ -469,6 +470,9 @@ public:
       }
     });
 
+    // derivatives above are w.r.t. u, du/dt = 2 / (tauf - tau0)
+    if (p > 0) { ret *= std::pow(2. / (tauf - tau0), static_cast<double>(p)); }
+
     return ret;
   }
 
-- 
2.43.0


From a15b955f1d6f94b2b4c68e0d8daac975fa443596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 13/28] fix: refinement by errors of intervals with one
 collocation point

---
 include/smooth/feedback/collocation/mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/collocation/mesh.hpp b/include/smooth/feedback/collocation/mesh.hpp
index 0f1a9e8..f2dd277 100644
--- a/include/smooth/feedback/collocation/mesh.hpp
+++ b/include/smooth/feedback/collocation/mesh.hpp
@@ -185,7 +185,7 @@ public:
       const auto Ki = N_colloc_ival(i);
 
       if (e > target_err) {
-        const auto Ktarget = Ki + std::lround(std::log(e / target_err) / std::log(Ki) + 1);
+        const auto Ktarget = Ki + std::lround(std::log(e / target_err) / std::log(std::max<std::size_t>(Ki, 2)) + 1);
         refine_ph(i, Ktarget);
       }
     }
-- 
2.43.0


From 5585ba175871472d31ca971278d57396196f5481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 14/28] fix: place endpoint-integral Hessian blocks of an OCP
 above the diagonal

---
 include/smooth/feedback/ocp_to_nlp.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/smooth/feedback/ocp_to_nlp.hpp b/include/smooth/feedback/ocp_to_nlp.hpp
index ab4c4d8..717fdb0 100644
--- a/include/smooth/feedback/ocp_to_nlp.hpp
+++ b/include/smooth/feedback/ocp_to_nlp.hpp
@@ -236,10 +236,10 @@ public:
 
     block_add(d2f_dx2_, x0var_B, x0var_B, d2fval.block(         1,          1, Nx, Nx), 1, true);  // x0x0
     block_add(d2f_dx2_, x0var_B, xfvar_B, d2fval.block(         1,     1 + Nx, Nx, Nx), 1, true);  // x0xf
-    block_add(d2f_dx2_, x0var_B,  qvar_B, d2fval.block(         1, 1 + 2 * Nx, Nx, Nq), 1, true);  // x0q
+    block_add(d2f_dx2_,  qvar_B, x0var_B, d2fval.block(1 + 2 * Nx,          1, Nq, Nx), 1, true);  // qx0
 
     block_add(d2f_dx2_, xfvar_B, xfvar_B, d2fval.block(    1 + Nx,     1 + Nx, Nx, Nx), 1, true);  // xfxf
-    block_add(d2f_dx2_, xfvar_B,  qvar_B, d2fval.block(    1 + Nx, 1 + 2 * Nx, Nx, Nq), 1, true);  // xfq
+    block_add(d2f_dx2_,  qvar_B, xfvar_B, d2fval.block(1 + 2 * Nx,     1 + Nx, Nq, Nx), 1, true);  // qxf
 
     block_add(d2f_dx2_,  qvar_B,  qvar_B, d2fval.block(1 + 2 * Nx, 1 + 2 * Nx, Nq, Nq), 1, true);  // qq
     // clang-format on
@@ -402,10 +402,10 @@ public:
 
       block_add(d2g_dx2_, x0var_B, x0var_B, d2ceval.block(         1, b0 +          1, Nx, Nx), lambda(cecon_B + j), true);  // x0x0
       block_add(d2g_dx2_, x0var_B, xfvar_B, d2ceval.block(         1, b0 +     1 + Nx, Nx, Nx), lambda(cecon_B + j), true);  // x0xf
-      block_add(d2g_dx2_, x0var_B,  qvar_B, d2ceval.block(         1, b0 + 1 + 2 * Nx, Nx, Nq), lambda(cecon_B + j), true);  // x0q
+      block_add(d2g_dx2_,  qvar_B, x0var_B, d2ceval.block(1 + 2 * Nx, b0 +          1, Nq, Nx), lambda(cecon_B + j), true);  // qx0
 
       block_add(d2g_dx2_, xfvar_B, xfvar_B, d2ceval.block(    1 + Nx, b0 +     1 + Nx, Nx, Nx), lambda(cecon_B + j), true);  // xfxf
-      block_add(d2g_dx2_, xfvar_B,  qvar_B, d2ceval.block(    1 + Nx, b0 + 1 + 2 * Nx, Nx, Nq), lambda(cecon_B + j), true);  // xfq
+      block_add(d2g_dx2_,  qvar_B, xfvar_B, d2ceval.block(1 + 2 * Nx, b0 +     1 + Nx, Nq, Nx), lambda(cecon_B + j), true);  // qxf
 
       block_add(d2g_dx2_,  qvar_B,  qvar_B, d2ceval.block(1 + 2 * Nx, b0 + 1 + 2 * Nx, Nq, Nq), lambda(cecon_B + j), true);  // qq
       // clang-format on
-- 
2.43.0


From 50149ba65f7b29c4eda18b629aab7722478ec5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 15/28] fix: weigh the end-point cost of a quadratic program by
 its full Hessian

---
 include/smooth/feedback/ocp_to_qp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/smooth/feedback/ocp_to_qp.hpp b/include/smooth/feedback/ocp_to_qp.hpp
index 0e8b223..a0bd66d 100644
--- a/include/smooth/feedback/ocp_to_qp.hpp
+++ b/include/smooth/feedback/ocp_to_qp.hpp
@@ -186,9 +186,9 @@ void ocp_to_qp_update_cost(
   //// ENDPOINT COST ////
   ///////////////////////
 
-  block_add(qp.P, 0, 0, d2th.block(1, 1, Nx, Nx), 0.5, true);                      // d2q / dx0x0
-  block_add(qp.P, 0, Nx * N, d2th.block(1, 1 + Nx, Nx, Nx), 0.5, true);            // d2q / dx0xf
-  block_add(qp.P, Nx * N, Nx * N, d2th.block(1 + Nx, 1 + Nx, Nx, Nx), 0.5, true);  // d2q / dxfxf
+  block_add(qp.P, 0, 0, d2th.block(1, 1, Nx, Nx), 1, true);                      // d2q / dx0x0
+  block_add(qp.P, 0, Nx * N, d2th.block(1, 1 + Nx, Nx, Nx), 1, true);            // d2q / dx0xf
+  block_add(qp.P, Nx * N, Nx * N, d2th.block(1 + Nx, 1 + Nx, Nx, Nx), 1, true);  // d2q / dxfxf
 
   qp.q.segment(0, Nx) += qo_x0;       // dq / dx0
   qp.q.segment(Nx * N, Nx) += qo_xf;  // dq / dxf
-- 
2.43.0


From 0bbfbb3304e31976db9dd958bb3bff58f79a6787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 16/28] fix: order of constraint dimensions in the solution
 type of qpsol_to_ocpsol

---
 include/smooth/feedback/ocp_to_qp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/ocp_to_qp.hpp b/include/smooth/feedback/ocp_to_qp.hpp
index a0bd66d..d2c4cd0 100644
--- a/include/smooth/feedback/ocp_to_qp.hpp
+++ b/include/smooth/feedback/ocp_to_qp.hpp
@@ -490,7 +490,7 @@ auto qpsol_to_ocpsol(
     return rplus(ul_fun(t), tngnt);
   };
 
-  return OCPSolution<X, U, Nq, Nce, Ncr>{
+  return OCPSolution<X, U, Nq, Ncr, Nce>{
     .t0 = 0.,
     .tf = tf,
     .u  = std::move(ufun),
-- 
2.43.0


From 885e360579576f5e1699be4ca0477ddf4cc0bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 17/28] fix: final state weight of MPC applies to the final
 state

---
 include/smooth/feedback/mpc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 1a9a19b..82287fb 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -109,7 +109,7 @@ struct MPCObj
 
     for (auto i = 0u; i < Nx; ++i) {
       for (auto j = 0u; j < Nx; ++j) {
-        if (Qtf(i, j) != 0) { hess.coeffRef(1 + i, 1 + j) = Qtf(i, j); }
+        if (Qtf(i, j) != 0) { hess.coeffRef(1 + Nx + i, 1 + Nx + j) = Qtf(i, j); }
       }
     }
 
-- 
2.43.0


From f8598b060a6b0e23b686f9139615f7003030ade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 18/28] fix: input weight of MPC does not depend on the
 nonzeros of the state weight

---
 include/smooth/feedback/mpc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 82287fb..baf8ed9 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -218,7 +218,7 @@ struct MPCIntegrand
     }
     for (auto i = 0u; i < Nu; ++i) {
       for (auto j = 0u; j < Nu; ++j) {
-        if (Q(i, j) != 0) { hess.coeffRef(1 + Nx + i, 1 + Nx + j) = R(i, j); }
+        if (R(i, j) != 0) { hess.coeffRef(1 + Nx + i, 1 + Nx + j) = R(i, j); }
       }
     }
 
-- 
2.43.0


From 09dec19e40b933de3522b3e6aa94213d5446e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 19/28] fix: MPC running constraints follow the desired
 trajectory

---
 include/smooth/feedback/mpc.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index baf8ed9..c17dd29 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -479,10 +479,8 @@ public:
 
     // transcribe to QP
     ocp_to_qp_update_dyn<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
-    if constexpr (requires(CR & crvar, T tvar) { crvar.set_time(tvar); }) {
-      // only update if running constraints are time-dependent
-      ocp_to_qp_update_cr<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
-    }
+    // NOTE running constraints are linearized around the desired trajectory which depends on time
+    ocp_to_qp_update_cr<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     ocp_to_qp_update_ce<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     qp_.A.makeCompressed();
     qp_.P.makeCompressed();
-- 
2.43.0


From 80d6cebe1584824c21bf1c6b78ef390a4f301602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 20/28] fix: MPC uses weights set after construction

---
 include/smooth/feedback/mpc.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index c17dd29..df0fe86 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <memory>
+#include <utility>
 
 #include <smooth/concepts/lie_group.hpp>
 #include <smooth/lie_sparse.hpp>
@@ -482,9 +483,15 @@ public:
     // NOTE running constraints are linearized around the desired trajectory which depends on time
     ocp_to_qp_update_cr<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     ocp_to_qp_update_ce<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
+    if (weights_changed_) {
+      ocp_to_qp_update_cost<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
+    }
     qp_.A.makeCompressed();
     qp_.P.makeCompressed();
 
+    // the sparsity pattern may depend on the weights
+    if (std::exchange(weights_changed_, false)) { qp_solver_.analyze(qp_); }
+
     // solve QP
     const auto & sol = qp_solver_.solve(qp_, warmstart_);
 
@@ -590,9 +597,10 @@ public:
    */
   inline void set_weights(const MPCWeights<X, U> & weights)
   {
-    ocp_.g.R       = weights.R;
-    ocp_.g.Q       = weights.Q;
-    ocp_.theta.Qtf = weights.Qtf;
+    ocp_.g.R         = weights.R;
+    ocp_.g.Q         = weights.Q;
+    ocp_.theta.Qtf   = weights.Qtf;
+    weights_changed_ = true;
   }
 
   /**
@@ -626,6 +634,9 @@ private:
   detail::OcpToQpWorkmemory work_;
   QuadraticProgramSparse<double> qp_;
 
+  // weights have changed since the cost was last transcribed
+  bool weights_changed_{false};
+
   // internal QP solver
   QPSolver<QuadraticProgramSparse<double>> qp_solver_;
 
-- 
2.43.0


From 5987f43f7e07c86dc300f451dd0ec1d9a1a735dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:12 +0000
Subject: [PATCH 21/28] fix: safety filter simulation ends at the look-ahead
 times

---
 include/smooth/feedback/asif_func.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/asif_func.hpp b/include/smooth/feedback/asif_func.hpp
index 9362474..74c9cbf 100644
--- a/include/smooth/feedback/asif_func.hpp
+++ b/include/smooth/feedback/asif_func.hpp
@@ -171,8 +171,8 @@ void asif_to_qp_update(
     qp.u.template segment<nh>(k * nh).setConstant(std::numeric_limits<double>::infinity());
 
     // integrate system and sensitivity forward until next constraint
-    double dt_act = std::min(dt, tau * (k + 1) - t);
     while (t < tau * (k + 1)) {
+      const double dt_act = std::min(dt, tau * (k + 1) - t);
       state_stepper.do_step(x_ode, x, t, dt_act);
       sensi_stepper.do_step(dx_dx0_ode, dx_dx0, t, dt_act);
       t += dt_act;
-- 
2.43.0


From 68bee02c38749bfae25d791a871c9379dafa31c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:12 +0000
Subject: [PATCH 22/28] fix: evaluate the sensitivity of the backup trajectory
 at its own time

---
 include/smooth/feedback/asif_func.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/asif_func.hpp b/include/smooth/feedback/asif_func.hpp
index 74c9cbf..da128a2 100644
--- a/include/smooth/feedback/asif_func.hpp
+++ b/include/smooth/feedback/asif_func.hpp
@@ -173,8 +173,9 @@ void asif_to_qp_update(
     // integrate system and sensitivity forward until next constraint
     while (t < tau * (k + 1)) {
       const double dt_act = std::min(dt, tau * (k + 1) - t);
-      state_stepper.do_step(x_ode, x, t, dt_act);
+      // NOTE the sensitivity depends on the state before the step
       sensi_stepper.do_step(dx_dx0_ode, dx_dx0, t, dt_act);
+      state_stepper.do_step(x_ode, x, t, dt_act);
       t += dt_act;
     }
   }
-- 
2.43.0


From 5b3642c25ad0c763c722a0dd5974cfac14801dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:12 +0000
Subject: [PATCH 23/28] fix: asif_to_qp uses the given differentiation method

---
 include/smooth/feedback/asif_func.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/asif_func.hpp b/include/smooth/feedback/asif_func.hpp
index da128a2..26d730a 100644
--- a/include/smooth/feedback/asif_func.hpp
+++ b/include/smooth/feedback/asif_func.hpp
@@ -255,7 +255,7 @@ asif_to_qp(const ASIFProblem<X, U> & pbm, const ASIFtoQPParams & prm, auto && f,
   const int nu_ineq = pbm.ulim.A.rows();
   QuadraticProgram<-1, -1, double> qp;
   asif_to_qp_allocate<X, U>(qp, prm.K, nu_ineq, nh);
-  asif_to_qp_update(
+  asif_to_qp_update<X, U, DT>(
     qp, pbm, prm, std::forward<decltype(f)>(f), std::forward<decltype(h)>(h), std::forward<decltype(bu)>(bu));
   return qp;
 }
-- 
2.43.0


From bf708e6fcf69e43de51727548c7db0b01ac89aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 24/28] fix: remove #endif without #if in the OSQP interface

---
 include/smooth/feedback/compat/osqp.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/smooth/feedback/compat/osqp.hpp b/include/smooth/feedback/compat/osqp.hpp
index 596b0e5..cfeab61 100644
--- a/include/smooth/feedback/compat/osqp.hpp
+++ b/include/smooth/feedback/compat/osqp.hpp
@@ -149,5 +149,3 @@ QPSolution<-1, -1, double> solve_qp_osqp(
 }
 
 }  // namespace smooth::feedback
-
-#endif  // SMOOTH__FEEDBACK__COMPAT__OSQP_HPP_
-- 
2.43.0


From 2f8db73b121af2e63058a096d3348b5c3e8ec2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 25/28] fix: do not use the OSQP workspace after a failed
 setup, report failed solves

---
 include/smooth/feedback/compat/osqp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/smooth/feedback/compat/osqp.hpp b/include/smooth/feedback/compat/osqp.hpp
index cfeab61..fffd2de 100644
--- a/include/smooth/feedback/compat/osqp.hpp
+++ b/include/smooth/feedback/compat/osqp.hpp
@@ -89,21 +89,21 @@ QPSolution<-1, -1, double> solve_qp_osqp(
   data->l         = const_cast<double *>(pbm.l.data());
   data->u         = const_cast<double *>(pbm.u.data());
 
-  OSQPWorkspace * work;
+  OSQPWorkspace * work = nullptr;
 
   QPSolution<-1, -1, double> ret;
   ret.code = QPSolutionStatus::Unknown;
 
   c_int error = osqp_setup(&work, data, settings);
 
-  if (warmstart) {
+  if (!error && warmstart) {
     osqp_warm_start(work, warmstart.value().get().primal.data(), warmstart.value().get().dual.data());
     settings->warm_start = 1;
   } else {
     settings->warm_start = 0;
   }
 
-  if (!error) { error &= osqp_solve(work); }
+  if (!error) { error = osqp_solve(work); }
 
   if (!error) {
     switch (work->info->status_val) {
-- 
2.43.0


From edfa5aad8d63a17a80cd023046280cee9b3f0864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:18 +0000
Subject: [PATCH 26/28] fix: reject derivatives that are not numbers when
 testing derivatives

---
 include/smooth/feedback/ocp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/ocp.hpp b/include/smooth/feedback/ocp.hpp
index b9e3c19..14d4517 100644
--- a/include/smooth/feedback/ocp.hpp
+++ b/include/smooth/feedback/ocp.hpp
@@ -201,7 +201,8 @@ bool test_ocp_derivatives(OCPType auto & ocp, uint32_t num_trials = 1, double ep
       && (m1.rows() == m2.rows())
       && (
           m1.isApprox(m2, 1e-4) ||
-          Eigen::MatrixXd(m1 - m2).cwiseAbs().maxCoeff() < eps
+          // NOTE maxCoeff() may skip nan
+          (Eigen::MatrixXd(m1 - m2).array().abs() < eps).all()
       )
       // clang-format on
     );
-- 
2.43.0


From 94190eeff05dba357cde1bf4bc9d598e377d0d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:18 +0000
Subject: [PATCH 27/28] fix: solve programs without second derivatives with
 Ipopt

---
 include/smooth/feedback/compat/ipopt.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index 7501e11..ecb0d84 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -215,9 +215,11 @@ public:
       Eigen::Map<const Eigen::VectorXd> xvar(x, n);
       Eigen::Map<const Eigen::VectorXd> lvar(lambda, m);
 
-      H_ += nlp_.d2f_dx2(xvar);
-      H_ *= sigma;
-      H_ += nlp_.d2g_dx2(xvar, lvar);
+      if constexpr (HessianNLP<Problem>) {
+        H_ += nlp_.d2f_dx2(xvar);
+        H_ *= sigma;
+        H_ += nlp_.d2g_dx2(xvar, lvar);
+      }
 
       for (auto cntr = 0u, od = 0u; od < H_.outerSize(); ++od) {
         for (Eigen::InnerIterator it(H_, od); it; ++it) { values[cntr++] = it.value(); }
-- 
2.43.0


From a587516b1d74e3d5714a8f988b15d0101fd00b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:18 +0000
Subject: [PATCH 28/28] fix: let Ipopt approximate the Hessian unless exact
 derivatives are requested

---
 include/smooth/feedback/compat/ipopt.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index ecb0d84..9408969 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -328,6 +328,9 @@ inline NLPSolution solve_nlp_ipopt(
     ipopt_nlp->sol().x.setZero(n);
   }
 
+  // derivative information has to match what Ipopt asks for
+  app->Options()->SetStringValue("hessian_approximation", use_hessian ? "exact" : "limited-memory");
+
   // override with user-provided options
   for (auto [opt, val] : opts_integer) { app->Options()->SetIntegerValue(opt, val); }
   for (auto [opt, val] : opts_string) { app->Options()->SetStringValue(opt, val); }
-- 
2.43.0

