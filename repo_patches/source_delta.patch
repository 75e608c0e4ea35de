From d584d8ac866a0831fd74c798eea753364d5d1b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 01/35] fix: test convergence before updating the multipliers

With the PRIMAL and PRIMAL_DUAL multiplier update modes, the multipliers were
replaced after the residuals had been computed and before SUCCESS was reported,
so the returned pair (x_opt, lams_opt) could violate the stationarity condition
by an arbitrary amount.
---
 include/proxsuite-nlp/prox-solver.hxx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index b76a08e..24c8bee 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -91,6 +91,14 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
     workspace.x_prev = results.x_opt;
     prox_penalty.updateTarget(workspace.x_prev);
 
+    // stop before the multipliers are updated: the residuals were computed for
+    // the current primal-dual pair, which is the one we return
+    if (std::max(results.prim_infeas, results.dual_infeas) < target_tol) {
+      workspace.data_lams_prev = results.data_lams_opt;
+      results.converged = ConvergenceFlag::SUCCESS;
+      break;
+    }
+
     if (results.prim_infeas < prim_tol_) {
       acceptMultipliers(results, workspace);
       updateToleranceSuccess();
@@ -98,10 +106,6 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
       updatePenalty();
       updateToleranceFailure();
     }
-    if (std::max(results.prim_infeas, results.dual_infeas) < target_tol) {
-      results.converged = ConvergenceFlag::SUCCESS;
-      break;
-    }
     setProxParameter(rho_ * bcl_params.rho_update_factor);
 
     al_iter++;
-- 
2.43.0


From 23f0f5228c91608f58b546b1758ea867de3be141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 02/35] fix: forward the proximal parameter to the components
 of a set product

ConstraintSetProduct kept the parameter for itself, so that the proximal
operator of a component which is not a projection (l1 penalty) ran with
parameter 0.
---
 include/proxsuite-nlp/constraint-set.hpp                   | 2 +-
 .../modelling/constraints/constraint-set-product.hpp       | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/constraint-set.hpp b/include/proxsuite-nlp/constraint-set.hpp
index 9a2ba05..6e83db6 100644
--- a/include/proxsuite-nlp/constraint-set.hpp
+++ b/include/proxsuite-nlp/constraint-set.hpp
@@ -67,7 +67,7 @@ public:
 
   /// @brief Update proximal parameter; this applies to when this class is a
   /// proximal operator that isn't a projection (e.g. \f$ \ell_1 \f$).
-  void setProxParameter(const Scalar mu) const {
+  virtual void setProxParameter(const Scalar mu) const {
     mu_ = mu;
     mu_inv_ = 1. / mu;
   };
diff --git a/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp b/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
index da9a906..d874f46 100644
--- a/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
+++ b/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
@@ -52,6 +52,13 @@ struct ConstraintSetProductTpl : ConstraintSetTpl<Scalar> {
   ConstraintSetProductTpl(ConstraintSetProductTpl &&) = default;
   ConstraintSetProductTpl &operator=(ConstraintSetProductTpl &&) = default;
 
+  void setProxParameter(const Scalar mu) const override {
+    Base::setProxParameter(mu);
+    for (const auto &component : m_components) {
+      component->setProxParameter(mu);
+    }
+  }
+
   Scalar evaluate(const ConstVectorRef &zproj) const override {
     Scalar res = 0.;
     for (std::size_t i = 0; i < m_components.size(); i++) {
-- 
2.43.0


From 1f530c1e45ae5e7278defcd140dfce7b1cb81227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 03/35] fix: check the KKT matrix that is about to be
 factorised

The NaN check ran before the matrix was assembled, so it tested the matrix of
the previous iteration: a non-finite Hessian reached the factorisation (where
Bunch-Kaufman pivoting reads out of bounds), and an aborted solve left a stale
matrix behind that made the next, clean, solve throw.
---
 include/proxsuite-nlp/prox-solver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 24c8bee..3cf8d0e 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -352,7 +352,6 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
     }
 
     PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_rhs, "kkt_rhs");
-    PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_matrix, "kkt_matrix");
 
     computePrimalResiduals(workspace, results);
 
@@ -394,6 +393,7 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
 
     // fill in KKT matrix
     assembleKktMatrix(workspace);
+    PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_matrix, "kkt_matrix");
 
     // choose regularisation level
 
-- 
2.43.0


From 51f29d7738a3654280bb822cdfc17a2ba3d2a7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:32 +0000
Subject: [PATCH 04/35] fix: check the merit value before accepting the step

The iterate and multipliers were overwritten before the check raised, so an
aborted solve left a rejected trial point in the results.
---
 include/proxsuite-nlp/prox-solver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 3cf8d0e..4e2e269 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -461,10 +461,10 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
     PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.alpha_opt, "alpha_opt");
     PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.x_trial, "x_trial");
     PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.data_lams_trial, "lams_trial");
+    PROXSUITE_NLP_RAISE_IF_NAN_NAME(phi_new, "merit");
     results.x_opt = workspace.x_trial;
     results.data_lams_opt = workspace.data_lams_trial;
     results.merit = phi_new;
-    PROXSUITE_NLP_RAISE_IF_NAN_NAME(results.merit, "merit");
 
     invokeCallbacks(workspace, results);
 
-- 
2.43.0


From 3c7522ff898c243322ef4b729cd57718a2bacc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:32 +0000
Subject: [PATCH 05/35] fix: reject non-finite objective and constraint values
 at the iterate

The objective value was never checked, and a NaN or infinite constraint value
can be dropped by the projections: a solve could go on, and even report
success, at a point where the problem could not be evaluated.
---
 include/proxsuite-nlp/prox-solver.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 4e2e269..3abbedc 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -351,6 +351,9 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
       workspace.merit_gradient += workspace.prox_grad;
     }
 
+    PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.objective_value,
+                                    "objective_value");
+    PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.data_cstr_values, "cstr_values");
     PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_rhs, "kkt_rhs");
 
     computePrimalResiduals(workspace, results);
-- 
2.43.0


From c044e903f6664e4177983a75f2a28786d971946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 06/35] fix: never accept a line-search step that was not
 evaluated

When an evaluation failed the search went on with the sample of another step,
and the loops could end at a step where the function had thrown, or had never
been called, with a merit value belonging to another point (or to none).
---
 include/proxsuite-nlp/linesearch-armijo.hpp | 41 ++++++++++-----------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/include/proxsuite-nlp/linesearch-armijo.hpp b/include/proxsuite-nlp/linesearch-armijo.hpp
index 6969a2c..bea8e61 100644
--- a/include/proxsuite-nlp/linesearch-armijo.hpp
+++ b/include/proxsuite-nlp/linesearch-armijo.hpp
@@ -66,18 +66,7 @@ public:
 
     // try the full step; if failure encountered, aggressively
     // backtrack until no exception is raised
-    while (true) {
-      try {
-        latest = FunctionSample(alpha_try, phi(alpha_try));
-        break;
-      } catch (const std::runtime_error &e) {
-        alpha_try *= 0.5;
-        if (alpha_try <= options_.alpha_min) {
-          alpha_try = options_.alpha_min;
-          break;
-        }
-      }
-    }
+    latest = evaluate_or_backtrack(phi, alpha_try);
 
     if (std::abs(dphi0) < options_.dphi_thresh) {
       return latest.phi;
@@ -126,26 +115,34 @@ public:
 
       if (std::isnan(alpha_try)) {
         // handle NaN case
-        alpha_try = options_.contraction_min * previous.alpha;
-      } else {
-        alpha_try = std::max(alpha_try, options_.alpha_min);
+        alpha_try = options_.contraction_min * latest.alpha;
       }
+      alpha_try = std::max(alpha_try, options_.alpha_min);
 
-      try {
-        previous = latest;
-        latest = FunctionSample(alpha_try, phi(alpha_try));
-      } catch (const std::runtime_error &e) {
-        continue;
-      }
+      previous = latest;
+      latest = evaluate_or_backtrack(phi, alpha_try);
 
       if (alpha_try <= options_.alpha_min) {
         break;
       }
     }
-    alpha_try = std::max(alpha_try, options_.alpha_min);
     return latest.phi;
   }
 
+  /// Evaluate the function at @p alpha_try, halving the step for as long as
+  /// the evaluation fails. A failure at the minimum step is the caller's.
+  FunctionSample evaluate_or_backtrack(const fun_t &phi, Scalar &alpha_try) {
+    while (true) {
+      try {
+        return FunctionSample(alpha_try, phi(alpha_try));
+      } catch (const std::runtime_error &) {
+        if (alpha_try <= options_.alpha_min)
+          throw;
+        alpha_try = std::max(Scalar(0.5) * alpha_try, options_.alpha_min);
+      }
+    }
+  }
+
   /// Propose a new candidate step size through safeguarded interpolation
   Scalar minimize_interpolant(LSInterpolation strat, Scalar min_step_size,
                               Scalar max_step_size) {
-- 
2.43.0


From e0a2ac599b1248ef9cd6cac80d92785cd74981bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:55 +0000
Subject: [PATCH 07/35] fix: centre the proximal penalty on the initial guess

---
 include/proxsuite-nlp/prox-solver.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 3abbedc..9b0812e 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -68,6 +68,7 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
   // init variables
   results.x_opt = x0;
   workspace.x_prev = x0;
+  prox_penalty.updateTarget(workspace.x_prev);
   if (lams0.size() == workspace.numdual) {
     results.data_lams_opt = lams0;
     workspace.data_lams_prev = lams0;
-- 
2.43.0


From 5f25c416cc0e44f7358240a4a58fe6e4d6baa3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:55 +0000
Subject: [PATCH 08/35] fix: match the right-hand side of the cubic
 interpolation to its rows

---
 include/proxsuite-nlp/linesearch-armijo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/linesearch-armijo.hpp b/include/proxsuite-nlp/linesearch-armijo.hpp
index bea8e61..4ddf99c 100644
--- a/include/proxsuite-nlp/linesearch-armijo.hpp
+++ b/include/proxsuite-nlp/linesearch-armijo.hpp
@@ -184,8 +184,8 @@ public:
       alph_mat(1, 0) = a1 * a1 * a1;
       alph_mat(1, 1) = a1 * a1;
 
-      Vector2s alph_rhs{cand1.phi - phi0 - dphi0 * a1,
-                        cand0.phi - phi0 - dphi0 * a0};
+      Vector2s alph_rhs{cand0.phi - phi0 - dphi0 * a0,
+                        cand1.phi - phi0 - dphi0 * a1};
 
       Eigen::HouseholderQR<Matrix2s> decomp(alph_mat);
       coeffs_cubic_interpolant = decomp.solve(alph_rhs);
-- 
2.43.0


From d8ed77116a237d9a9dfa953fe1cd326c81719f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 09/35] fix: initialise the scalars of the workspace and
 results

---
 include/proxsuite-nlp/results.hpp   | 4 ++--
 include/proxsuite-nlp/workspace.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/results.hpp b/include/proxsuite-nlp/results.hpp
index 0128bea..d275f2b 100644
--- a/include/proxsuite-nlp/results.hpp
+++ b/include/proxsuite-nlp/results.hpp
@@ -25,8 +25,8 @@ template <typename _Scalar> struct ResultsTpl {
 
   ConvergenceFlag converged = SUCCESS;
 
-  Scalar merit;
-  Scalar value;
+  Scalar merit = 0.;
+  Scalar value = 0.;
   VectorXs x_opt;
   VectorXs data_lams_opt;
   VectorOfRef lams_opt;
diff --git a/include/proxsuite-nlp/workspace.hpp b/include/proxsuite-nlp/workspace.hpp
index 863581d..609a430 100644
--- a/include/proxsuite-nlp/workspace.hpp
+++ b/include/proxsuite-nlp/workspace.hpp
@@ -76,7 +76,7 @@ public:
   std::vector<VectorRef> cstr_values;
 
   /// Objective value
-  Scalar objective_value;
+  Scalar objective_value = 0.;
   /// Objective function gradient.
   VectorXs objective_gradient;
   /// Objective function Hessian.
@@ -114,7 +114,7 @@ public:
   std::vector<Scalar> ls_alphas;
   std::vector<Scalar> ls_values;
   /// Optimal linesearch \f$\alpha^\star\f$
-  Scalar alpha_opt;
+  Scalar alpha_opt = 0.;
   /// Merit function derivative in descent direction
   Scalar dmerit_dir = 0.;
 
-- 
2.43.0


From 83e96caa92778368a97fc2abd63a65a50cda1bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 10/35] fix: only use the vector-Hessian products of the
 current iterate

---
 include/proxsuite-nlp/prox-solver.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 9b0812e..4e78484 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -513,8 +513,10 @@ void ProxNLPSolverTpl<Scalar>::assembleKktMatrix(Workspace &workspace) {
   }
   for (std::size_t i = 0; i < workspace.numblocks; i++) {
     const ConstraintSet &cstr_set = *problem_->getConstraint(i).set_;
-    bool use_vhp =
-        !cstr_set.disableGaussNewton() || (hess_approx == HessianApprox::EXACT);
+    // only these modes evaluate the vector-Hessian products
+    bool use_vhp = (hess_approx == HessianApprox::EXACT) ||
+                   (hess_approx == HessianApprox::GAUSS_NEWTON &&
+                    !cstr_set.disableGaussNewton());
     if (use_vhp) {
       workspace.kkt_matrix.topLeftCorner(ndx, ndx) +=
           workspace.cstr_vector_hessian_prod[i];
-- 
2.43.0


From 272021ec66275c35ddfe9edd7d9253defd867010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 11/35] fix: do not index empty line-search histories in
 history_callback

---
 include/proxsuite-nlp/helpers/history-callback.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/helpers/history-callback.hpp b/include/proxsuite-nlp/helpers/history-callback.hpp
index 6109940..ba3db15 100644
--- a/include/proxsuite-nlp/helpers/history-callback.hpp
+++ b/include/proxsuite-nlp/helpers/history-callback.hpp
@@ -49,9 +49,9 @@ template <typename Scalar> struct history_callback : base_callback<Scalar> {
     }
     const std::size_t asize = workspace.ls_alphas.size();
     storage.ls_alphas.emplace_back(
-        Eigen::Map<const VectorXs>(&workspace.ls_alphas[0], asize));
+        Eigen::Map<const VectorXs>(workspace.ls_alphas.data(), asize));
     storage.ls_values.emplace_back(
-        Eigen::Map<const VectorXs>(&workspace.ls_values[0], asize));
+        Eigen::Map<const VectorXs>(workspace.ls_values.data(), asize));
     storage.alphas.push_back(workspace.alpha_opt);
     storage.dmerit_dir.push_back(workspace.dmerit_dir);
   }
-- 
2.43.0


From 3d36ad68e0aa1177ab8b26d986a767bb7e8b6cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 12/35] fix: let history_callback's multiplier views refer to
 the stored history

---
 include/proxsuite-nlp/helpers/history-callback.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/helpers/history-callback.hpp b/include/proxsuite-nlp/helpers/history-callback.hpp
index ba3db15..0490726 100644
--- a/include/proxsuite-nlp/helpers/history-callback.hpp
+++ b/include/proxsuite-nlp/helpers/history-callback.hpp
@@ -39,7 +39,15 @@ template <typename Scalar> struct history_callback : base_callback<Scalar> {
     if (store_primal_dual_vars_) {
       storage.xs.push_back(results.x_opt);
       storage.lams.push_back(results.data_lams_opt);
-      storage.lams_view.push_back(results.lams_opt);
+      // views of the stored copy: those in the results follow the iterations
+      VectorXs &lams = storage.lams.back();
+      VectorOfRef view;
+      view.reserve(results.lams_opt.size());
+      for (const auto &lam : results.lams_opt) {
+        view.emplace_back(lams.segment(
+            lam.data() - results.data_lams_opt.data(), lam.size()));
+      }
+      storage.lams_view.push_back(std::move(view));
     }
     if (store_values_)
       storage.values.push_back(results.value);
-- 
2.43.0


From 8aca9dea65ca5421301a96270a76ff5d2910890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:36 +0000
Subject: [PATCH 13/35] fix: report a numerical issue when a Bunch-Kaufman
 pivot is not finite

---
 include/proxsuite-nlp/linalg/bunchkaufman.hpp | 1336 +++++++++--------
 1 file changed, 669 insertions(+), 667 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/bunchkaufman.hpp b/include/proxsuite-nlp/linalg/bunchkaufman.hpp
index 75fae41..442db0b 100644
--- a/include/proxsuite-nlp/linalg/bunchkaufman.hpp
+++ b/include/proxsuite-nlp/linalg/bunchkaufman.hpp
@@ -1,667 +1,669 @@
-/// @file
-/// @author Sarah El-Kazdadi
-/// @copyright Copyright (C) 2023
-#pragma once
-
-#include "Eigen/Core"
-
-namespace Eigen {
-template <typename MatrixType_, int UpLo_ = Lower> struct BunchKaufman;
-
-namespace internal {
-template <typename MatrixType_, int UpLo_>
-struct traits<BunchKaufman<MatrixType_, UpLo_>> : traits<MatrixType_> {
-  typedef MatrixXpr XprKind;
-  typedef SolverStorage StorageKind;
-  typedef int StorageIndex;
-  enum { Flags = 0 };
-};
-
-template <typename MatrixType, typename IndicesType>
-ComputationInfo bunch_kaufman_in_place_unblocked(MatrixType &a,
-                                                 IndicesType &pivots,
-                                                 Index &pivot_count) {
-  using Scalar = typename MatrixType::Scalar;
-  using Real = typename Eigen::NumTraits<Scalar>::Real;
-  const Real alpha = (Real(1) + numext::sqrt(Real(17))) / Real(8);
-  using std::swap;
-
-  pivot_count = 0;
-
-  const Index n = a.rows();
-  if (n == 0) {
-    return Success;
-  } else if (n == 1) {
-    if (numext::abs(numext::real(a(0, 0))) == Real(0)) {
-      return NumericalIssue;
-    } else {
-      a(0, 0) = Real(1) / numext::real(a(0, 0));
-      return Success;
-    }
-  }
-
-  Index k = 0;
-  while (k < n) {
-    Index k_step = 1;
-    Real abs_akk = numext::abs(numext::real(a(k, k)));
-    Index imax = 0;
-    Real colmax = Real(0);
-
-    if (k + 1 < n) {
-      colmax = a.col(k).segment(k + 1, n - k - 1).cwiseAbs().maxCoeff(&imax);
-    }
-    imax += k + 1;
-
-    Index kp;
-    if (numext::maxi(abs_akk, colmax) == Real(0)) {
-      return NumericalIssue;
-    } else {
-      if (abs_akk >= colmax * alpha) {
-        kp = k;
-      } else {
-        Real rowmax = Real(0);
-        if (imax - k > 0) {
-          rowmax = a.row(imax).segment(k, imax - k).cwiseAbs().maxCoeff();
-        }
-        if (n - imax - 1 > 0) {
-          rowmax = numext::maxi(rowmax, a.col(imax)
-                                            .segment(imax + 1, n - imax - 1)
-                                            .cwiseAbs()
-                                            .maxCoeff());
-        }
-
-        if (abs_akk >= (alpha * colmax) * (colmax / rowmax)) {
-          kp = k;
-        } else if (numext::abs(numext::real(a(imax, imax))) >= alpha * rowmax) {
-          kp = imax;
-        } else {
-          kp = imax;
-          k_step = 2;
-        }
-      }
-
-      Index kk = k + k_step - 1;
-      if (kp != kk) {
-        pivot_count += 1;
-        a.col(kk)
-            .segment(kp + 1, n - kp - 1)
-            .swap(a.col(kp).segment(kp + 1, n - kp - 1));
-
-        for (Index j = kk + 1; j < kp; ++j) {
-          Scalar tmp = a(j, kk);
-          a(j, kk) = numext::conj(a(kp, j));
-          a(kp, j) = numext::conj(tmp);
-        }
-        a(kp, kk) = numext::conj(a(kp, kk));
-        swap(a(kk, kk), a(kp, kp));
-
-        if (k_step == 2) {
-          swap(a(k + 1, k), a(kp, k));
-        }
-      }
-
-      if (k_step == 1) {
-        Real d11 = Real(1) / numext::real(a(k, k));
-        a(k, k) = Scalar(d11);
-
-        auto x = a.middleRows(k + 1, n - k - 1).col(k);
-        auto trailing =
-            a.middleRows(k + 1, n - k - 1).middleCols(k + 1, n - k - 1);
-
-        for (Index j = 0; j < n - k - 1; ++j) {
-          Scalar d11xj = numext::conj(x(j)) * d11;
-          for (Index i = j; i < n - k - 1; ++i) {
-            Scalar xi = x(i);
-            trailing(i, j) -= d11xj * xi;
-          }
-          trailing(j, j) = Scalar(numext::real(trailing(j, j)));
-        }
-
-        x *= d11;
-      } else {
-        Real d21_abs = numext::abs(a(k + 1, k));
-        Real d21_inv = Real(1) / d21_abs;
-        Real d11 = d21_inv * numext::real(a(k + 1, k + 1));
-        Real d22 = d21_inv * numext::real(a(k, k));
-
-        Real t = Real(1) / ((d11 * d22) - Real(1));
-        Real d = t * d21_inv;
-        Scalar d21 = a(k + 1, k) * d21_inv;
-
-        a(k, k) = Scalar(d11 * d);
-        a(k + 1, k) = -d21 * d;
-        a(k + 1, k + 1) = Scalar(d22 * d);
-
-        for (Index j = k + 2; j < n; ++j) {
-          Scalar wk = ((a(j, k) * d11) - (a(j, k + 1) * d21)) * d;
-          Scalar wkp1 =
-              ((a(j, k + 1) * d22) - (a(j, k) * numext::conj(d21))) * d;
-
-          for (Index i = j; i < n; ++i) {
-            a(i, j) -=
-                a(i, k) * numext::conj(wk) + a(i, k + 1) * numext::conj(wkp1);
-          }
-          a(j, j) = Scalar(numext::real(a(j, j)));
-
-          a(j, k) = wk;
-          a(j, k + 1) = wkp1;
-        }
-      }
-    }
-
-    // pivots matrix store int by default
-    // Like Eigen, we assume that we will never
-    // have a matrix that will have more rows/columns
-    // than int can old
-    if (k_step == 1) {
-      pivots[k] = static_cast<int>(kp);
-    } else {
-      pivots[k] = static_cast<int>(-1 - kp);
-      pivots[k + 1] = static_cast<int>(-1 - kp);
-    }
-
-    k += k_step;
-  }
-
-  return Success;
-}
-
-template <typename MatrixType, typename WType, typename IndicesType>
-ComputationInfo
-bunch_kaufman_in_place_one_block(MatrixType &a, WType &w, IndicesType &pivots,
-                                 Index &pivot_count, Index &processed_cols) {
-  using Scalar = typename MatrixType::Scalar;
-  using Real = typename Eigen::NumTraits<Scalar>::Real;
-
-  pivot_count = 0;
-  processed_cols = 0;
-  Real alpha = (Real(1) + numext::sqrt(Real(17))) / Real(8);
-
-  Index n = a.rows();
-  if (n == 0) {
-    return Success;
-  }
-
-  Index nb = w.cols();
-  Index k = 0;
-  while (k < n && k + 1 < nb) {
-    w.col(k).segment(k, n - k) = a.col(k).segment(k, n - k);
-    {
-      auto w_row = w.row(k).segment(0, k);
-      auto w_col = w.col(k).segment(k, n - k);
-      w_col.noalias() -= a.block(k, 0, n - k, k) * w_row.transpose();
-    }
-    w(k, k) = Scalar(numext::real(w(k, k)));
-
-    Index k_step = 1;
-    Real abs_akk = numext::abs(numext::real(w(k, k)));
-    Index imax = 0;
-    Real colmax = Real(0);
-
-    if (k + 1 < n) {
-      colmax = w.col(k).segment(k + 1, n - k - 1).cwiseAbs().maxCoeff(&imax);
-    }
-    imax += k + 1;
-
-    Index kp;
-    if (numext::maxi(abs_akk, colmax) == Real(0)) {
-      return NumericalIssue;
-    } else {
-      if (abs_akk >= colmax * alpha) {
-        kp = k;
-      } else {
-        w.col(k + 1).segment(k, imax - k) =
-            a.row(imax).segment(k, imax - k).adjoint();
-        w.col(k + 1).segment(imax, n - imax) =
-            a.col(imax).segment(imax, n - imax);
-
-        {
-          auto w_row = w.row(imax).segment(0, k);
-          auto w_col = w.col(k + 1).segment(k, n - k);
-          w_col.noalias() -= a.block(k, 0, n - k, k) * w_row.transpose();
-        }
-        w(imax, k + 1) = Scalar(numext::real(w(imax, k + 1)));
-
-        Real rowmax = Real(0);
-        if (imax - k > 0) {
-          rowmax = w.col(k + 1).segment(k, imax - k).cwiseAbs().maxCoeff();
-        }
-        if (n - imax - 1 > 0) {
-          rowmax = numext::maxi(rowmax, w.col(k + 1)
-                                            .segment(imax + 1, n - imax - 1)
-                                            .cwiseAbs()
-                                            .maxCoeff());
-        }
-
-        if (abs_akk >= (alpha * colmax) * (colmax / rowmax)) {
-          kp = k;
-        } else if (numext::abs(numext::real(w(imax, k + 1))) >=
-                   alpha * rowmax) {
-          kp = imax;
-          w.col(k).segment(k, n - k) = w.col(k + 1).segment(k, n - k);
-        } else {
-          kp = imax;
-          k_step = 2;
-        }
-      }
-
-      Index kk = k + k_step - 1;
-      if (kp != kk) {
-        pivot_count += 1;
-
-        a(kp, kp) = a(kk, kk);
-        for (Index j = kk + 1; j < kp; ++j) {
-          a(kp, j) = numext::conj(a(j, kk));
-        }
-        a.col(kp).segment(kp + 1, n - kp - 1) =
-            a.col(kk).segment(kp + 1, n - kp - 1);
-        a.row(kk).segment(0, k).swap(a.row(kp).segment(0, k));
-        w.row(kk).segment(0, kk + 1).swap(w.row(kp).segment(0, kk + 1));
-      }
-
-      if (k_step == 1) {
-        a.col(k).segment(k, n - k) = w.col(k).segment(k, n - k);
-
-        Real d11 = Real(1) / numext::real(w(k, k));
-        a(k, k) = Scalar(d11);
-        auto x = a.middleRows(k + 1, n - k - 1).col(k);
-        x *= d11;
-        w.col(k).segment(k + 1, n - k - 1) =
-            w.col(k).segment(k + 1, n - k - 1).conjugate();
-      } else {
-        Real d21_abs = numext::abs(w(k + 1, k));
-        Real d21_inv = Real(1) / d21_abs;
-        Real d11 = d21_inv * numext::real(w(k + 1, k + 1));
-        Real d22 = d21_inv * numext::real(w(k, k));
-
-        Real t = Real(1) / ((d11 * d22) - Real(1));
-        Scalar d21 = w(k + 1, k) * d21_inv;
-        Real d = t * d21_inv;
-
-        a(k, k) = Scalar(d11 * d);
-        a(k + 1, k) = -d21 * d;
-        a(k + 1, k + 1) = Scalar(d22 * d);
-
-        for (Index j = k + 2; j < n; ++j) {
-          Scalar wk = ((w(j, k) * d11) - (w(j, k + 1) * d21)) * d;
-          Scalar wkp1 =
-              ((w(j, k + 1) * d22) - (w(j, k) * numext::conj(d21))) * d;
-
-          a(j, k) = wk;
-          a(j, k + 1) = wkp1;
-        }
-
-        w.col(k).segment(k + 1, n - k - 1) =
-            w.col(k).segment(k + 1, n - k - 1).conjugate();
-        w.col(k + 1).segment(k + 2, n - k - 2) =
-            w.col(k + 1).segment(k + 2, n - k - 2).conjugate();
-      }
-    }
-
-    // pivots matrix store int by default
-    // Like Eigen, we assume that we will never
-    // have a matrix that will have more rows/columns
-    // than int can old
-    if (k_step == 1) {
-      pivots[k] = static_cast<int>(kp);
-    } else {
-      pivots[k] = static_cast<int>(-1 - kp);
-      pivots[k + 1] = static_cast<int>(-1 - kp);
-    }
-
-    k += k_step;
-  }
-
-  auto a_left = a.bottomRows(n - k).leftCols(k);
-  auto a_right = a.bottomRows(n - k).rightCols(n - k);
-
-  a_right.template triangularView<Lower>() -=
-      a_left * w.block(k, 0, n - k, k).transpose();
-  Index j = k - 1;
-  processed_cols = k;
-
-  while (true) {
-    Index jj = j;
-    Index jp = pivots[j];
-    if (jp < 0) {
-      jp = -1 - jp;
-      j -= 1;
-    }
-
-    if (j == 0) {
-      return Success;
-    }
-    j -= 1;
-    if (jp != jj) {
-      a.row(jp).segment(0, j + 1).swap(a.row(jj).segment(0, j + 1));
-    }
-    if (j == 0) {
-      return Success;
-    }
-  }
-}
-
-template <typename MatrixType, typename VecType, typename IndicesType,
-          typename WorkspaceType>
-ComputationInfo bunch_kaufman_in_place(MatrixType &a, VecType &subdiag,
-                                       IndicesType &pivots, WorkspaceType &w,
-                                       Index &pivot_count) {
-  Index n = a.rows();
-
-  const Index blocksize = w.cols();
-
-  Index k = 0;
-  while (k < n) {
-    Index kb = 0;
-    Index k_pivot_count = 0;
-    auto a_block = a.block(k, k, n - k, n - k);
-    auto pivots_block = pivots.segment(k, n - k);
-    ComputationInfo info = InvalidInput;
-    if (blocksize != 0 && blocksize < n - k) {
-      info = internal::bunch_kaufman_in_place_one_block(
-          a_block, w, pivots_block, k_pivot_count, kb);
-    } else {
-      info = internal::bunch_kaufman_in_place_unblocked(a_block, pivots_block,
-                                                        k_pivot_count);
-      kb = n - k;
-    }
-    if (info != Success) {
-      return info;
-    }
-
-    for (Index j = k; j < k + kb; ++j) {
-      auto &p = pivots.coeffRef(j);
-      // pivots matrix store int by default
-      // Like Eigen, we assume that we will never
-      // have a matrix that will have more rows/columns
-      // than int can old
-      if (p >= 0) {
-        p += static_cast<int>(k);
-      } else {
-        p -= static_cast<int>(k);
-      }
-    }
-
-    pivot_count += k_pivot_count;
-    k += kb;
-  }
-
-  using Scalar = typename MatrixType::Scalar;
-
-  k = 0;
-  while (k < n) {
-    if (pivots[k] < 0) {
-      subdiag(k) = a(k + 1, k);
-      subdiag(k + 1) = Scalar(0);
-      a(k + 1, k) = Scalar(0);
-      k += 2;
-    } else {
-      subdiag(k) = Scalar(0);
-      k += 1;
-    }
-  }
-
-  k = 0;
-  while (k < n) {
-    Index p = pivots[k];
-    if (p < 0) {
-      p = -1 - p;
-      a.row(k + 1).segment(0, k).swap(a.row(p).segment(0, k));
-      k += 2;
-    } else {
-      a.row(k).segment(0, k).swap(a.row(p).segment(0, k));
-      k += 1;
-    }
-  }
-
-  return Success;
-}
-
-template <typename MatrixType, bool Conjugate> struct BK_Traits;
-
-template <typename MatrixType> struct BK_Traits<MatrixType, false> {
-  typedef TriangularView<const MatrixType, UnitLower> MatrixL;
-  typedef TriangularView<const typename MatrixType::AdjointReturnType,
-                         UnitUpper>
-      MatrixU;
-  static inline MatrixL getL(const MatrixType &m) { return MatrixL(m); }
-  static inline MatrixU getU(const MatrixType &m) {
-    return MatrixU(m.adjoint());
-  }
-};
-
-template <typename MatrixType> struct BK_Traits<MatrixType, true> {
-  typedef typename MatrixType::ConjugateReturnType ConjugateReturnType;
-  typedef TriangularView<const ConjugateReturnType, UnitLower> MatrixL;
-  typedef TriangularView<const typename MatrixType::TransposeReturnType,
-                         UnitUpper>
-      MatrixU;
-  static inline MatrixL getL(const MatrixType &m) {
-    return MatrixL(m.conjugate());
-  }
-  static inline MatrixU getU(const MatrixType &m) {
-    return MatrixU(m.transpose());
-  }
-};
-
-template <bool Conjugate, typename MatrixType, typename VecType,
-          typename IndicesType, typename Rhs>
-void bunch_kaufman_solve_in_place(MatrixType const &L, VecType const &subdiag,
-                                  IndicesType const &pivots, Rhs &x) {
-  Index n = L.rows();
-
-  Index k;
-
-  k = 0;
-  while (k < n) {
-    Index p = pivots(k);
-    if (p < 0) {
-      p = -1 - p;
-      x.row(k + 1).swap(x.row(p));
-      k += 2;
-    } else {
-      x.row(k).swap(x.row(p));
-      k += 1;
-    }
-  }
-
-  using Traits = BK_Traits<MatrixType, Conjugate>;
-
-  Traits::getL(L).solveInPlace(x);
-
-  k = 0;
-  while (k < n) {
-    Index p = pivots(k);
-    if (p < 0) {
-      using Scalar = typename MatrixType::Scalar;
-      using Real = typename Eigen::NumTraits<Scalar>::Real;
-
-      Scalar akp1k = subdiag(k);
-      Real ak = numext::real(L(k, k));
-      Real akp1 = numext::real(L(k + 1, k + 1));
-
-      if (Conjugate) {
-        akp1k = numext::conj(akp1k);
-      }
-
-      for (Index j = 0; j < x.cols(); ++j) {
-        Scalar xk = x(k, j);
-        Scalar xkp1 = x(k + 1, j);
-
-        x(k, j) = xk * ak + xkp1 * numext::conj(akp1k);
-        x(k + 1, j) = xkp1 * akp1 + xk * akp1k;
-      }
-
-      k += 2;
-    } else {
-      x.row(k) *= numext::real(L(k, k));
-      k += 1;
-    }
-  }
-
-  Traits::getU(L).solveInPlace(x);
-
-  k = n;
-  while (k > 0) {
-    k -= 1;
-    Index p = pivots(k);
-    if (p < 0) {
-      p = -1 - p;
-      x.row(k).swap(x.row(p));
-      k -= 1;
-    } else {
-      x.row(k).swap(x.row(p));
-    }
-  }
-}
-} // namespace internal
-
-template <typename MatrixType_, int UpLo_>
-struct BunchKaufman : SolverBase<BunchKaufman<MatrixType_, UpLo_>> {
-  enum {
-    MaxRowsAtCompileTime = MatrixType_::MaxRowsAtCompileTime,
-    MaxColsAtCompileTime = MatrixType_::MaxColsAtCompileTime,
-    UpLo = UpLo_
-  };
-  using MatrixType = MatrixType_;
-  using PlainObject = typename MatrixType::PlainObject;
-  using Base = SolverBase<BunchKaufman>;
-  static constexpr Index BlockSize = 32;
-  EIGEN_GENERIC_PUBLIC_INTERFACE(BunchKaufman)
-  using VecType = Matrix<Scalar, RowsAtCompileTime, 1, Eigen::DontAlign,
-                         MaxRowsAtCompileTime>;
-  friend class SolverBase<BunchKaufman>;
-
-  using IndicesType =
-      typename Transpositions<RowsAtCompileTime,
-                              MaxRowsAtCompileTime>::IndicesType;
-  using PermutationType =
-      PermutationMatrix<RowsAtCompileTime, MaxRowsAtCompileTime>;
-
-  BunchKaufman()
-      : m_matrix(), m_subdiag(), m_pivot_count(0), m_pivots(),
-        m_isInitialized(false), m_info(ComputationInfo::InvalidInput),
-        m_blocksize(), m_workspace() {}
-  explicit BunchKaufman(Index size)
-      : m_matrix(size, size), m_subdiag(size), m_pivot_count(0), m_pivots(size),
-        m_isInitialized(false), m_info(ComputationInfo::InvalidInput),
-        m_blocksize(size <= BlockSize ? 0 : BlockSize),
-        m_workspace(size, m_blocksize) {}
-
-  template <typename InputType>
-  explicit BunchKaufman(const EigenBase<InputType> &matrix)
-      : m_matrix(matrix.rows(), matrix.cols()), m_subdiag(matrix.rows()),
-        m_pivot_count(0), m_pivots(matrix.rows()), m_isInitialized(false),
-        m_info(ComputationInfo::InvalidInput),
-        m_blocksize(matrix.rows() <= BlockSize ? 0 : BlockSize),
-        m_workspace(matrix.rows(), m_blocksize) {
-    this->compute(matrix.derived());
-  }
-
-  // EIGEN_DEVICE_FUNC inline EIGEN_CONSTEXPR Index rows() const EIGEN_NOEXCEPT
-  // { return m_matrix.rows(); }
-  EIGEN_DEVICE_FUNC inline Index rows() const EIGEN_NOEXCEPT {
-    return m_matrix.rows();
-  }
-  // EIGEN_DEVICE_FUNC inline EIGEN_CONSTEXPR Index cols() const EIGEN_NOEXCEPT
-  // { return m_matrix.cols(); }
-  EIGEN_DEVICE_FUNC inline Index cols() const EIGEN_NOEXCEPT {
-    return m_matrix.cols();
-  }
-
-  inline const MatrixType &matrixLDLT() const { return m_matrix; }
-
-  inline const IndicesType &pivots() const { return m_pivots; }
-
-  inline const VecType &subdiag() const { return m_subdiag; }
-
-  template <typename InputType>
-  BunchKaufman &compute(const EigenBase<InputType> &matrix);
-
-  ComputationInfo info() const { return m_info; }
-
-#ifdef EIGEN_PARSED_BY_DOXYGEN
-  template <typename Rhs>
-  inline const Solve<LDLT, Rhs> solve(const MatrixBase<Rhs> &b) const;
-#endif
-
-#ifndef EIGEN_PARSED_BY_DOXYGEN
-  template <typename RhsType, typename DstType>
-  void _solve_impl(const RhsType &rhs, DstType &dst) const;
-
-  template <bool Conjugate, typename RhsType, typename DstType>
-  void _solve_impl_transposed(const RhsType &rhs, DstType &dst) const;
-
-  template <typename RhsType>
-  bool solveInPlace(Eigen::MatrixBase<RhsType> &bAndX) const;
-#endif
-
-private:
-  MatrixType m_matrix;
-  VecType m_subdiag;
-  Index m_pivot_count;
-  IndicesType m_pivots;
-  bool m_isInitialized;
-  ComputationInfo m_info;
-  Index m_blocksize;
-  PlainObject m_workspace;
-};
-
-#ifndef EIGEN_PARSED_BY_DOXYGEN
-template <typename MatrixType_, int UpLo_>
-template <typename RhsType, typename DstType>
-void BunchKaufman<MatrixType_, UpLo_>::_solve_impl(const RhsType &rhs,
-                                                   DstType &dst) const {
-  dst = rhs;
-  internal::bunch_kaufman_solve_in_place<false>(this->m_matrix, this->m_subdiag,
-                                                this->m_pivots, dst);
-}
-
-template <typename MatrixType_, int UpLo_>
-template <bool Conjugate, typename RhsType, typename DstType>
-void BunchKaufman<MatrixType_, UpLo_>::_solve_impl_transposed(
-    const RhsType &rhs, DstType &dst) const {
-  dst = rhs;
-  internal::bunch_kaufman_solve_in_place<!Conjugate>(
-      this->m_matrix, this->m_subdiag, this->m_pivots, dst);
-}
-
-template <typename MatrixType_, int UpLo_>
-template <typename RhsType>
-bool BunchKaufman<MatrixType_, UpLo_>::solveInPlace(
-    Eigen::MatrixBase<RhsType> &bAndX) const {
-  bAndX = this->solve(bAndX);
-
-  return true;
-}
-#endif
-
-template <typename MatrixType_, int UpLo_>
-template <typename InputType>
-BunchKaufman<MatrixType_, UpLo_> &
-BunchKaufman<MatrixType_, UpLo_>::compute(const EigenBase<InputType> &a) {
-  eigen_assert(a.rows() == a.cols());
-  Index n = a.rows();
-  this->m_matrix.resize(n, n);
-  this->m_subdiag.resize(n);
-  this->m_pivots.resize(n);
-
-  this->m_matrix.setZero();
-  this->m_subdiag.setZero();
-  this->m_pivots.setZero();
-  this->m_blocksize = n <= BlockSize ? 0 : BlockSize;
-  this->m_workspace.setZero(n, this->m_blocksize);
-
-  this->m_matrix.template triangularView<Lower>() =
-      a.derived().template triangularView<UpLo_>();
-  this->m_info = internal::bunch_kaufman_in_place(
-      this->m_matrix, this->m_subdiag, this->m_pivots, this->m_workspace,
-      this->m_pivot_count);
-  this->m_isInitialized = true;
-  return *this;
-}
-} // namespace Eigen
-
-namespace proxsuite::nlp {
-using Eigen::BunchKaufman;
-}
+/// @file
+/// @author Sarah El-Kazdadi
+/// @copyright Copyright (C) 2023
+#pragma once
+
+#include "Eigen/Core"
+
+namespace Eigen {
+template <typename MatrixType_, int UpLo_ = Lower> struct BunchKaufman;
+
+namespace internal {
+template <typename MatrixType_, int UpLo_>
+struct traits<BunchKaufman<MatrixType_, UpLo_>> : traits<MatrixType_> {
+  typedef MatrixXpr XprKind;
+  typedef SolverStorage StorageKind;
+  typedef int StorageIndex;
+  enum { Flags = 0 };
+};
+
+template <typename MatrixType, typename IndicesType>
+ComputationInfo bunch_kaufman_in_place_unblocked(MatrixType &a,
+                                                 IndicesType &pivots,
+                                                 Index &pivot_count) {
+  using Scalar = typename MatrixType::Scalar;
+  using Real = typename Eigen::NumTraits<Scalar>::Real;
+  const Real alpha = (Real(1) + numext::sqrt(Real(17))) / Real(8);
+  using std::swap;
+
+  pivot_count = 0;
+
+  const Index n = a.rows();
+  if (n == 0) {
+    return Success;
+  } else if (n == 1) {
+    if (numext::abs(numext::real(a(0, 0))) == Real(0)) {
+      return NumericalIssue;
+    } else {
+      a(0, 0) = Real(1) / numext::real(a(0, 0));
+      return Success;
+    }
+  }
+
+  Index k = 0;
+  while (k < n) {
+    Index k_step = 1;
+    Real abs_akk = numext::abs(numext::real(a(k, k)));
+    Index imax = 0;
+    Real colmax = Real(0);
+
+    if (k + 1 < n) {
+      colmax = a.col(k).segment(k + 1, n - k - 1).cwiseAbs().maxCoeff(&imax);
+    }
+    imax += k + 1;
+
+    Index kp;
+    if (!(numext::isfinite)(abs_akk) || !(numext::isfinite)(colmax) ||
+        numext::maxi(abs_akk, colmax) == Real(0)) {
+      return NumericalIssue;
+    } else {
+      if (abs_akk >= colmax * alpha) {
+        kp = k;
+      } else {
+        Real rowmax = Real(0);
+        if (imax - k > 0) {
+          rowmax = a.row(imax).segment(k, imax - k).cwiseAbs().maxCoeff();
+        }
+        if (n - imax - 1 > 0) {
+          rowmax = numext::maxi(rowmax, a.col(imax)
+                                            .segment(imax + 1, n - imax - 1)
+                                            .cwiseAbs()
+                                            .maxCoeff());
+        }
+
+        if (abs_akk >= (alpha * colmax) * (colmax / rowmax)) {
+          kp = k;
+        } else if (numext::abs(numext::real(a(imax, imax))) >= alpha * rowmax) {
+          kp = imax;
+        } else {
+          kp = imax;
+          k_step = 2;
+        }
+      }
+
+      Index kk = k + k_step - 1;
+      if (kp != kk) {
+        pivot_count += 1;
+        a.col(kk)
+            .segment(kp + 1, n - kp - 1)
+            .swap(a.col(kp).segment(kp + 1, n - kp - 1));
+
+        for (Index j = kk + 1; j < kp; ++j) {
+          Scalar tmp = a(j, kk);
+          a(j, kk) = numext::conj(a(kp, j));
+          a(kp, j) = numext::conj(tmp);
+        }
+        a(kp, kk) = numext::conj(a(kp, kk));
+        swap(a(kk, kk), a(kp, kp));
+
+        if (k_step == 2) {
+          swap(a(k + 1, k), a(kp, k));
+        }
+      }
+
+      if (k_step == 1) {
+        Real d11 = Real(1) / numext::real(a(k, k));
+        a(k, k) = Scalar(d11);
+
+        auto x = a.middleRows(k + 1, n - k - 1).col(k);
+        auto trailing =
+            a.middleRows(k + 1, n - k - 1).middleCols(k + 1, n - k - 1);
+
+        for (Index j = 0; j < n - k - 1; ++j) {
+          Scalar d11xj = numext::conj(x(j)) * d11;
+          for (Index i = j; i < n - k - 1; ++i) {
+            Scalar xi = x(i);
+            trailing(i, j) -= d11xj * xi;
+          }
+          trailing(j, j) = Scalar(numext::real(trailing(j, j)));
+        }
+
+        x *= d11;
+      } else {
+        Real d21_abs = numext::abs(a(k + 1, k));
+        Real d21_inv = Real(1) / d21_abs;
+        Real d11 = d21_inv * numext::real(a(k + 1, k + 1));
+        Real d22 = d21_inv * numext::real(a(k, k));
+
+        Real t = Real(1) / ((d11 * d22) - Real(1));
+        Real d = t * d21_inv;
+        Scalar d21 = a(k + 1, k) * d21_inv;
+
+        a(k, k) = Scalar(d11 * d);
+        a(k + 1, k) = -d21 * d;
+        a(k + 1, k + 1) = Scalar(d22 * d);
+
+        for (Index j = k + 2; j < n; ++j) {
+          Scalar wk = ((a(j, k) * d11) - (a(j, k + 1) * d21)) * d;
+          Scalar wkp1 =
+              ((a(j, k + 1) * d22) - (a(j, k) * numext::conj(d21))) * d;
+
+          for (Index i = j; i < n; ++i) {
+            a(i, j) -=
+                a(i, k) * numext::conj(wk) + a(i, k + 1) * numext::conj(wkp1);
+          }
+          a(j, j) = Scalar(numext::real(a(j, j)));
+
+          a(j, k) = wk;
+          a(j, k + 1) = wkp1;
+        }
+      }
+    }
+
+    // pivots matrix store int by default
+    // Like Eigen, we assume that we will never
+    // have a matrix that will have more rows/columns
+    // than int can old
+    if (k_step == 1) {
+      pivots[k] = static_cast<int>(kp);
+    } else {
+      pivots[k] = static_cast<int>(-1 - kp);
+      pivots[k + 1] = static_cast<int>(-1 - kp);
+    }
+
+    k += k_step;
+  }
+
+  return Success;
+}
+
+template <typename MatrixType, typename WType, typename IndicesType>
+ComputationInfo
+bunch_kaufman_in_place_one_block(MatrixType &a, WType &w, IndicesType &pivots,
+                                 Index &pivot_count, Index &processed_cols) {
+  using Scalar = typename MatrixType::Scalar;
+  using Real = typename Eigen::NumTraits<Scalar>::Real;
+
+  pivot_count = 0;
+  processed_cols = 0;
+  Real alpha = (Real(1) + numext::sqrt(Real(17))) / Real(8);
+
+  Index n = a.rows();
+  if (n == 0) {
+    return Success;
+  }
+
+  Index nb = w.cols();
+  Index k = 0;
+  while (k < n && k + 1 < nb) {
+    w.col(k).segment(k, n - k) = a.col(k).segment(k, n - k);
+    {
+      auto w_row = w.row(k).segment(0, k);
+      auto w_col = w.col(k).segment(k, n - k);
+      w_col.noalias() -= a.block(k, 0, n - k, k) * w_row.transpose();
+    }
+    w(k, k) = Scalar(numext::real(w(k, k)));
+
+    Index k_step = 1;
+    Real abs_akk = numext::abs(numext::real(w(k, k)));
+    Index imax = 0;
+    Real colmax = Real(0);
+
+    if (k + 1 < n) {
+      colmax = w.col(k).segment(k + 1, n - k - 1).cwiseAbs().maxCoeff(&imax);
+    }
+    imax += k + 1;
+
+    Index kp;
+    if (!(numext::isfinite)(abs_akk) || !(numext::isfinite)(colmax) ||
+        numext::maxi(abs_akk, colmax) == Real(0)) {
+      return NumericalIssue;
+    } else {
+      if (abs_akk >= colmax * alpha) {
+        kp = k;
+      } else {
+        w.col(k + 1).segment(k, imax - k) =
+            a.row(imax).segment(k, imax - k).adjoint();
+        w.col(k + 1).segment(imax, n - imax) =
+            a.col(imax).segment(imax, n - imax);
+
+        {
+          auto w_row = w.row(imax).segment(0, k);
+          auto w_col = w.col(k + 1).segment(k, n - k);
+          w_col.noalias() -= a.block(k, 0, n - k, k) * w_row.transpose();
+        }
+        w(imax, k + 1) = Scalar(numext::real(w(imax, k + 1)));
+
+        Real rowmax = Real(0);
+        if (imax - k > 0) {
+          rowmax = w.col(k + 1).segment(k, imax - k).cwiseAbs().maxCoeff();
+        }
+        if (n - imax - 1 > 0) {
+          rowmax = numext::maxi(rowmax, w.col(k + 1)
+                                            .segment(imax + 1, n - imax - 1)
+                                            .cwiseAbs()
+                                            .maxCoeff());
+        }
+
+        if (abs_akk >= (alpha * colmax) * (colmax / rowmax)) {
+          kp = k;
+        } else if (numext::abs(numext::real(w(imax, k + 1))) >=
+                   alpha * rowmax) {
+          kp = imax;
+          w.col(k).segment(k, n - k) = w.col(k + 1).segment(k, n - k);
+        } else {
+          kp = imax;
+          k_step = 2;
+        }
+      }
+
+      Index kk = k + k_step - 1;
+      if (kp != kk) {
+        pivot_count += 1;
+
+        a(kp, kp) = a(kk, kk);
+        for (Index j = kk + 1; j < kp; ++j) {
+          a(kp, j) = numext::conj(a(j, kk));
+        }
+        a.col(kp).segment(kp + 1, n - kp - 1) =
+            a.col(kk).segment(kp + 1, n - kp - 1);
+        a.row(kk).segment(0, k).swap(a.row(kp).segment(0, k));
+        w.row(kk).segment(0, kk + 1).swap(w.row(kp).segment(0, kk + 1));
+      }
+
+      if (k_step == 1) {
+        a.col(k).segment(k, n - k) = w.col(k).segment(k, n - k);
+
+        Real d11 = Real(1) / numext::real(w(k, k));
+        a(k, k) = Scalar(d11);
+        auto x = a.middleRows(k + 1, n - k - 1).col(k);
+        x *= d11;
+        w.col(k).segment(k + 1, n - k - 1) =
+            w.col(k).segment(k + 1, n - k - 1).conjugate();
+      } else {
+        Real d21_abs = numext::abs(w(k + 1, k));
+        Real d21_inv = Real(1) / d21_abs;
+        Real d11 = d21_inv * numext::real(w(k + 1, k + 1));
+        Real d22 = d21_inv * numext::real(w(k, k));
+
+        Real t = Real(1) / ((d11 * d22) - Real(1));
+        Scalar d21 = w(k + 1, k) * d21_inv;
+        Real d = t * d21_inv;
+
+        a(k, k) = Scalar(d11 * d);
+        a(k + 1, k) = -d21 * d;
+        a(k + 1, k + 1) = Scalar(d22 * d);
+
+        for (Index j = k + 2; j < n; ++j) {
+          Scalar wk = ((w(j, k) * d11) - (w(j, k + 1) * d21)) * d;
+          Scalar wkp1 =
+              ((w(j, k + 1) * d22) - (w(j, k) * numext::conj(d21))) * d;
+
+          a(j, k) = wk;
+          a(j, k + 1) = wkp1;
+        }
+
+        w.col(k).segment(k + 1, n - k - 1) =
+            w.col(k).segment(k + 1, n - k - 1).conjugate();
+        w.col(k + 1).segment(k + 2, n - k - 2) =
+            w.col(k + 1).segment(k + 2, n - k - 2).conjugate();
+      }
+    }
+
+    // pivots matrix store int by default
+    // Like Eigen, we assume that we will never
+    // have a matrix that will have more rows/columns
+    // than int can old
+    if (k_step == 1) {
+      pivots[k] = static_cast<int>(kp);
+    } else {
+      pivots[k] = static_cast<int>(-1 - kp);
+      pivots[k + 1] = static_cast<int>(-1 - kp);
+    }
+
+    k += k_step;
+  }
+
+  auto a_left = a.bottomRows(n - k).leftCols(k);
+  auto a_right = a.bottomRows(n - k).rightCols(n - k);
+
+  a_right.template triangularView<Lower>() -=
+      a_left * w.block(k, 0, n - k, k).transpose();
+  Index j = k - 1;
+  processed_cols = k;
+
+  while (true) {
+    Index jj = j;
+    Index jp = pivots[j];
+    if (jp < 0) {
+      jp = -1 - jp;
+      j -= 1;
+    }
+
+    if (j == 0) {
+      return Success;
+    }
+    j -= 1;
+    if (jp != jj) {
+      a.row(jp).segment(0, j + 1).swap(a.row(jj).segment(0, j + 1));
+    }
+    if (j == 0) {
+      return Success;
+    }
+  }
+}
+
+template <typename MatrixType, typename VecType, typename IndicesType,
+          typename WorkspaceType>
+ComputationInfo bunch_kaufman_in_place(MatrixType &a, VecType &subdiag,
+                                       IndicesType &pivots, WorkspaceType &w,
+                                       Index &pivot_count) {
+  Index n = a.rows();
+
+  const Index blocksize = w.cols();
+
+  Index k = 0;
+  while (k < n) {
+    Index kb = 0;
+    Index k_pivot_count = 0;
+    auto a_block = a.block(k, k, n - k, n - k);
+    auto pivots_block = pivots.segment(k, n - k);
+    ComputationInfo info = InvalidInput;
+    if (blocksize != 0 && blocksize < n - k) {
+      info = internal::bunch_kaufman_in_place_one_block(
+          a_block, w, pivots_block, k_pivot_count, kb);
+    } else {
+      info = internal::bunch_kaufman_in_place_unblocked(a_block, pivots_block,
+                                                        k_pivot_count);
+      kb = n - k;
+    }
+    if (info != Success) {
+      return info;
+    }
+
+    for (Index j = k; j < k + kb; ++j) {
+      auto &p = pivots.coeffRef(j);
+      // pivots matrix store int by default
+      // Like Eigen, we assume that we will never
+      // have a matrix that will have more rows/columns
+      // than int can old
+      if (p >= 0) {
+        p += static_cast<int>(k);
+      } else {
+        p -= static_cast<int>(k);
+      }
+    }
+
+    pivot_count += k_pivot_count;
+    k += kb;
+  }
+
+  using Scalar = typename MatrixType::Scalar;
+
+  k = 0;
+  while (k < n) {
+    if (pivots[k] < 0) {
+      subdiag(k) = a(k + 1, k);
+      subdiag(k + 1) = Scalar(0);
+      a(k + 1, k) = Scalar(0);
+      k += 2;
+    } else {
+      subdiag(k) = Scalar(0);
+      k += 1;
+    }
+  }
+
+  k = 0;
+  while (k < n) {
+    Index p = pivots[k];
+    if (p < 0) {
+      p = -1 - p;
+      a.row(k + 1).segment(0, k).swap(a.row(p).segment(0, k));
+      k += 2;
+    } else {
+      a.row(k).segment(0, k).swap(a.row(p).segment(0, k));
+      k += 1;
+    }
+  }
+
+  return Success;
+}
+
+template <typename MatrixType, bool Conjugate> struct BK_Traits;
+
+template <typename MatrixType> struct BK_Traits<MatrixType, false> {
+  typedef TriangularView<const MatrixType, UnitLower> MatrixL;
+  typedef TriangularView<const typename MatrixType::AdjointReturnType,
+                         UnitUpper>
+      MatrixU;
+  static inline MatrixL getL(const MatrixType &m) { return MatrixL(m); }
+  static inline MatrixU getU(const MatrixType &m) {
+    return MatrixU(m.adjoint());
+  }
+};
+
+template <typename MatrixType> struct BK_Traits<MatrixType, true> {
+  typedef typename MatrixType::ConjugateReturnType ConjugateReturnType;
+  typedef TriangularView<const ConjugateReturnType, UnitLower> MatrixL;
+  typedef TriangularView<const typename MatrixType::TransposeReturnType,
+                         UnitUpper>
+      MatrixU;
+  static inline MatrixL getL(const MatrixType &m) {
+    return MatrixL(m.conjugate());
+  }
+  static inline MatrixU getU(const MatrixType &m) {
+    return MatrixU(m.transpose());
+  }
+};
+
+template <bool Conjugate, typename MatrixType, typename VecType,
+          typename IndicesType, typename Rhs>
+void bunch_kaufman_solve_in_place(MatrixType const &L, VecType const &subdiag,
+                                  IndicesType const &pivots, Rhs &x) {
+  Index n = L.rows();
+
+  Index k;
+
+  k = 0;
+  while (k < n) {
+    Index p = pivots(k);
+    if (p < 0) {
+      p = -1 - p;
+      x.row(k + 1).swap(x.row(p));
+      k += 2;
+    } else {
+      x.row(k).swap(x.row(p));
+      k += 1;
+    }
+  }
+
+  using Traits = BK_Traits<MatrixType, Conjugate>;
+
+  Traits::getL(L).solveInPlace(x);
+
+  k = 0;
+  while (k < n) {
+    Index p = pivots(k);
+    if (p < 0) {
+      using Scalar = typename MatrixType::Scalar;
+      using Real = typename Eigen::NumTraits<Scalar>::Real;
+
+      Scalar akp1k = subdiag(k);
+      Real ak = numext::real(L(k, k));
+      Real akp1 = numext::real(L(k + 1, k + 1));
+
+      if (Conjugate) {
+        akp1k = numext::conj(akp1k);
+      }
+
+      for (Index j = 0; j < x.cols(); ++j) {
+        Scalar xk = x(k, j);
+        Scalar xkp1 = x(k + 1, j);
+
+        x(k, j) = xk * ak + xkp1 * numext::conj(akp1k);
+        x(k + 1, j) = xkp1 * akp1 + xk * akp1k;
+      }
+
+      k += 2;
+    } else {
+      x.row(k) *= numext::real(L(k, k));
+      k += 1;
+    }
+  }
+
+  Traits::getU(L).solveInPlace(x);
+
+  k = n;
+  while (k > 0) {
+    k -= 1;
+    Index p = pivots(k);
+    if (p < 0) {
+      p = -1 - p;
+      x.row(k).swap(x.row(p));
+      k -= 1;
+    } else {
+      x.row(k).swap(x.row(p));
+    }
+  }
+}
+} // namespace internal
+
+template <typename MatrixType_, int UpLo_>
+struct BunchKaufman : SolverBase<BunchKaufman<MatrixType_, UpLo_>> {
+  enum {
+    MaxRowsAtCompileTime = MatrixType_::MaxRowsAtCompileTime,
+    MaxColsAtCompileTime = MatrixType_::MaxColsAtCompileTime,
+    UpLo = UpLo_
+  };
+  using MatrixType = MatrixType_;
+  using PlainObject = typename MatrixType::PlainObject;
+  using Base = SolverBase<BunchKaufman>;
+  static constexpr Index BlockSize = 32;
+  EIGEN_GENERIC_PUBLIC_INTERFACE(BunchKaufman)
+  using VecType = Matrix<Scalar, RowsAtCompileTime, 1, Eigen::DontAlign,
+                         MaxRowsAtCompileTime>;
+  friend class SolverBase<BunchKaufman>;
+
+  using IndicesType =
+      typename Transpositions<RowsAtCompileTime,
+                              MaxRowsAtCompileTime>::IndicesType;
+  using PermutationType =
+      PermutationMatrix<RowsAtCompileTime, MaxRowsAtCompileTime>;
+
+  BunchKaufman()
+      : m_matrix(), m_subdiag(), m_pivot_count(0), m_pivots(),
+        m_isInitialized(false), m_info(ComputationInfo::InvalidInput),
+        m_blocksize(), m_workspace() {}
+  explicit BunchKaufman(Index size)
+      : m_matrix(size, size), m_subdiag(size), m_pivot_count(0), m_pivots(size),
+        m_isInitialized(false), m_info(ComputationInfo::InvalidInput),
+        m_blocksize(size <= BlockSize ? 0 : BlockSize),
+        m_workspace(size, m_blocksize) {}
+
+  template <typename InputType>
+  explicit BunchKaufman(const EigenBase<InputType> &matrix)
+      : m_matrix(matrix.rows(), matrix.cols()), m_subdiag(matrix.rows()),
+        m_pivot_count(0), m_pivots(matrix.rows()), m_isInitialized(false),
+        m_info(ComputationInfo::InvalidInput),
+        m_blocksize(matrix.rows() <= BlockSize ? 0 : BlockSize),
+        m_workspace(matrix.rows(), m_blocksize) {
+    this->compute(matrix.derived());
+  }
+
+  // EIGEN_DEVICE_FUNC inline EIGEN_CONSTEXPR Index rows() const EIGEN_NOEXCEPT
+  // { return m_matrix.rows(); }
+  EIGEN_DEVICE_FUNC inline Index rows() const EIGEN_NOEXCEPT {
+    return m_matrix.rows();
+  }
+  // EIGEN_DEVICE_FUNC inline EIGEN_CONSTEXPR Index cols() const EIGEN_NOEXCEPT
+  // { return m_matrix.cols(); }
+  EIGEN_DEVICE_FUNC inline Index cols() const EIGEN_NOEXCEPT {
+    return m_matrix.cols();
+  }
+
+  inline const MatrixType &matrixLDLT() const { return m_matrix; }
+
+  inline const IndicesType &pivots() const { return m_pivots; }
+
+  inline const VecType &subdiag() const { return m_subdiag; }
+
+  template <typename InputType>
+  BunchKaufman &compute(const EigenBase<InputType> &matrix);
+
+  ComputationInfo info() const { return m_info; }
+
+#ifdef EIGEN_PARSED_BY_DOXYGEN
+  template <typename Rhs>
+  inline const Solve<LDLT, Rhs> solve(const MatrixBase<Rhs> &b) const;
+#endif
+
+#ifndef EIGEN_PARSED_BY_DOXYGEN
+  template <typename RhsType, typename DstType>
+  void _solve_impl(const RhsType &rhs, DstType &dst) const;
+
+  template <bool Conjugate, typename RhsType, typename DstType>
+  void _solve_impl_transposed(const RhsType &rhs, DstType &dst) const;
+
+  template <typename RhsType>
+  bool solveInPlace(Eigen::MatrixBase<RhsType> &bAndX) const;
+#endif
+
+private:
+  MatrixType m_matrix;
+  VecType m_subdiag;
+  Index m_pivot_count;
+  IndicesType m_pivots;
+  bool m_isInitialized;
+  ComputationInfo m_info;
+  Index m_blocksize;
+  PlainObject m_workspace;
+};
+
+#ifndef EIGEN_PARSED_BY_DOXYGEN
+template <typename MatrixType_, int UpLo_>
+template <typename RhsType, typename DstType>
+void BunchKaufman<MatrixType_, UpLo_>::_solve_impl(const RhsType &rhs,
+                                                   DstType &dst) const {
+  dst = rhs;
+  internal::bunch_kaufman_solve_in_place<false>(this->m_matrix, this->m_subdiag,
+                                                this->m_pivots, dst);
+}
+
+template <typename MatrixType_, int UpLo_>
+template <bool Conjugate, typename RhsType, typename DstType>
+void BunchKaufman<MatrixType_, UpLo_>::_solve_impl_transposed(
+    const RhsType &rhs, DstType &dst) const {
+  dst = rhs;
+  internal::bunch_kaufman_solve_in_place<!Conjugate>(
+      this->m_matrix, this->m_subdiag, this->m_pivots, dst);
+}
+
+template <typename MatrixType_, int UpLo_>
+template <typename RhsType>
+bool BunchKaufman<MatrixType_, UpLo_>::solveInPlace(
+    Eigen::MatrixBase<RhsType> &bAndX) const {
+  bAndX = this->solve(bAndX);
+
+  return true;
+}
+#endif
+
+template <typename MatrixType_, int UpLo_>
+template <typename InputType>
+BunchKaufman<MatrixType_, UpLo_> &
+BunchKaufman<MatrixType_, UpLo_>::compute(const EigenBase<InputType> &a) {
+  eigen_assert(a.rows() == a.cols());
+  Index n = a.rows();
+  this->m_matrix.resize(n, n);
+  this->m_subdiag.resize(n);
+  this->m_pivots.resize(n);
+
+  this->m_matrix.setZero();
+  this->m_subdiag.setZero();
+  this->m_pivots.setZero();
+  this->m_blocksize = n <= BlockSize ? 0 : BlockSize;
+  this->m_workspace.setZero(n, this->m_blocksize);
+
+  this->m_matrix.template triangularView<Lower>() =
+      a.derived().template triangularView<UpLo_>();
+  this->m_info = internal::bunch_kaufman_in_place(
+      this->m_matrix, this->m_subdiag, this->m_pivots, this->m_workspace,
+      this->m_pivot_count);
+  this->m_isInitialized = true;
+  return *this;
+}
+} // namespace Eigen
+
+namespace proxsuite::nlp {
+using Eigen::BunchKaufman;
+}
-- 
2.43.0


From 61c4517e6593b865df9620a63db92509de0e18cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 14/35] fix: let callbacks register and clear callbacks

---
 include/proxsuite-nlp/prox-solver.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/prox-solver.hpp b/include/proxsuite-nlp/prox-solver.hpp
index 4dbb1ed..4e78efb 100644
--- a/include/proxsuite-nlp/prox-solver.hpp
+++ b/include/proxsuite-nlp/prox-solver.hpp
@@ -280,7 +280,10 @@ public:
   void tryStep(Workspace &workspace, const Results &results, Scalar alpha);
 
   void invokeCallbacks(Workspace &workspace, Results &results) {
-    for (auto cb : callbacks_) {
+    // callbacks may register or clear callbacks; new ones wait for the next call
+    const std::size_t num_cbs = callbacks_.size();
+    for (std::size_t i = 0; i < num_cbs && i < callbacks_.size(); i++) {
+      const CallbackPtr cb = callbacks_[i];
       cb->call(workspace, results);
     }
   }
-- 
2.43.0


From c7a30d76de88f33cff1247af7078bf831e54b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 15/35] fix: let a failed allocation in registerCallback reach
 the caller

---
 include/proxsuite-nlp/prox-solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/prox-solver.hpp b/include/proxsuite-nlp/prox-solver.hpp
index 4e78efb..dd8e21b 100644
--- a/include/proxsuite-nlp/prox-solver.hpp
+++ b/include/proxsuite-nlp/prox-solver.hpp
@@ -211,7 +211,7 @@ public:
   void setProxParameter(const Scalar &new_rho) noexcept;
 
   /// @brief    Add a callback to the solver instance.
-  inline void registerCallback(const CallbackPtr &cb) noexcept {
+  inline void registerCallback(const CallbackPtr &cb) {
     callbacks_.push_back(cb);
   }
 
-- 
2.43.0


From 03065c0d1a100333b49a60b3e75e20930e8a707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 16/35] fix: make BlockLDLT own its symbolic structures

The block structures were shallow copies managed by hand: assigning a
BlockLDLT freed them twice, copying one lost the transposed structure and the
sign of the factorization, and analysing or permuting the structure leaked the
previous one.
---
 include/proxsuite-nlp/ldlt-allocator.hpp    |  3 +-
 include/proxsuite-nlp/linalg/block-kind.hpp |  4 +-
 include/proxsuite-nlp/linalg/block-ldlt.hpp | 62 ++++++++++++---------
 include/proxsuite-nlp/linalg/block-ldlt.hxx |  6 +-
 4 files changed, 45 insertions(+), 30 deletions(-)

diff --git a/include/proxsuite-nlp/ldlt-allocator.hpp b/include/proxsuite-nlp/ldlt-allocator.hpp
index 70111f6..b6d983c 100644
--- a/include/proxsuite-nlp/ldlt-allocator.hpp
+++ b/include/proxsuite-nlp/ldlt-allocator.hpp
@@ -111,7 +111,8 @@ LDLTVariant<Scalar> allocate_ldlt_from_sizes(const std::vector<isize> &nprims,
   case LDLTChoice::BUNCHKAUFMAN:
     return BunchKaufman<MatrixXs>(size);
   case LDLTChoice::BLOCKSPARSE: {
-    auto structure = create_default_block_structure(nprims, nduals);
+    const linalg::backend::OwningSymbolicBlockMatrix structure(
+        create_default_block_structure(nprims, nduals));
 
     linalg::BlockLDLT<Scalar> block_ldlt(size, structure);
     block_ldlt.findSparsifyingPermutation();
diff --git a/include/proxsuite-nlp/linalg/block-kind.hpp b/include/proxsuite-nlp/linalg/block-kind.hpp
index 8e7c068..71b96f2 100644
--- a/include/proxsuite-nlp/linalg/block-kind.hpp
+++ b/include/proxsuite-nlp/linalg/block-kind.hpp
@@ -8,6 +8,7 @@
 #include "proxsuite-nlp/config.hpp"
 
 #include <Eigen/Core>
+#include <memory>
 #include <numeric>
 #include <vector>
 
@@ -56,8 +57,9 @@ struct PROXSUITE_NLP_DLLAPI SymbolicBlockMatrix {
 
 private:
   void alloc() {
-    m_data = new BlockKind[usize(size())];
+    std::unique_ptr<BlockKind[]> data(new BlockKind[usize(size())]);
     segment_lens = new isize[usize(nsegments())];
+    m_data = data.release();
   }
 
 public:
diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index f17b391..de34be1 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -11,6 +11,7 @@
 #include "proxsuite-nlp/linalg/gemmt.hpp"
 
 #include <numeric>
+#include <utility>
 
 namespace proxsuite {
 namespace nlp {
@@ -179,6 +180,37 @@ template <typename Scalar> struct block_impl {
   }
 };
 
+/// @brief A SymbolicBlockMatrix which owns its data: copies are deep, and the
+/// data is released on destruction.
+struct OwningSymbolicBlockMatrix : SymbolicBlockMatrix {
+  OwningSymbolicBlockMatrix() noexcept
+      : SymbolicBlockMatrix(nullptr, nullptr, 0, 0) {}
+  /// Takes ownership of the data of @p other.
+  explicit OwningSymbolicBlockMatrix(SymbolicBlockMatrix &&other) noexcept
+      : SymbolicBlockMatrix(other) {}
+  OwningSymbolicBlockMatrix(OwningSymbolicBlockMatrix const &other)
+      : SymbolicBlockMatrix(other.copy()) {}
+  OwningSymbolicBlockMatrix(OwningSymbolicBlockMatrix &&other) noexcept
+      : OwningSymbolicBlockMatrix() {
+    swap(other);
+  }
+  OwningSymbolicBlockMatrix &
+  operator=(OwningSymbolicBlockMatrix other) noexcept {
+    swap(other);
+    return *this;
+  }
+  ~OwningSymbolicBlockMatrix() {
+    delete[] m_data;
+    delete[] segment_lens;
+  }
+
+private:
+  void swap(OwningSymbolicBlockMatrix &other) noexcept {
+    std::swap(static_cast<SymbolicBlockMatrix &>(*this),
+              static_cast<SymbolicBlockMatrix &>(other));
+  }
+};
+
 } // namespace backend
 
 /// @brief Block sparsity-aware LDLT factorization algorithm.
@@ -210,8 +242,8 @@ template <typename _Scalar> struct BlockLDLT : ldlt_base<_Scalar> {
 
 protected:
   MatrixXs m_matrix;
-  SymbolicBlockMatrix m_structure;
-  SymbolicBlockMatrix m_struct_tr;
+  backend::OwningSymbolicBlockMatrix m_structure;
+  backend::OwningSymbolicBlockMatrix m_struct_tr;
   PermutationType m_permutation;
   using Base::m_info;
   using Base::m_sign;
@@ -227,22 +259,11 @@ public:
   /// block pattern @param structure.
   BlockLDLT(isize size, SymbolicBlockMatrix const &structure)
       : Base(), m_matrix(size, size), m_structure(structure.copy()),
-        m_permutation(size), m_perm(nblocks()), m_perm_inv(nblocks()),
-        m_iwork(nblocks()), m_start_idx(nblocks()) {
+        m_struct_tr(m_structure.transpose()), m_permutation(size),
+        m_perm(nblocks()), m_perm_inv(nblocks()), m_iwork(nblocks()),
+        m_start_idx(nblocks()) {
     std::iota(m_perm.begin(), m_perm.end(), isize(0));
     m_permutation.setIdentity();
-    m_struct_tr = m_structure.transpose();
-  }
-
-  BlockLDLT(BlockLDLT const &other)
-      : BlockLDLT(other.m_matrix.rows(), other.m_structure) {
-    m_matrix = other.m_matrix;
-    m_permutation = other.m_permutation;
-    m_info = other.m_info;
-    m_perm = other.m_perm;
-    m_perm_inv = other.m_perm_inv;
-    m_iwork = other.m_iwork;
-    m_start_idx = other.m_start_idx;
   }
 
   /// Compute indices indicating where blocks start
@@ -253,15 +274,6 @@ public:
     }
   }
 
-  ~BlockLDLT() {
-    delete[] m_structure.m_data;
-    delete[] m_structure.segment_lens;
-    delete[] m_struct_tr.m_data;
-    delete[] m_struct_tr.segment_lens;
-    m_structure.m_data = nullptr;
-    m_structure.segment_lens = nullptr;
-  }
-
   /// @returns a reference to the symbolic representation of the block-matrix.
   inline const SymbolicBlockMatrix &structure() const { return m_structure; }
   inline void print_sparsity() const { print_sparsity_pattern(m_structure); }
diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hxx b/include/proxsuite-nlp/linalg/block-ldlt.hxx
index e0ab2f8..deb41e1 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hxx
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hxx
@@ -12,7 +12,7 @@ namespace linalg {
 
 template <typename Scalar>
 void BlockLDLT<Scalar>::setBlockPermutation(isize const *new_perm) {
-  SymbolicBlockMatrix in(m_structure.copy());
+  const backend::OwningSymbolicBlockMatrix in(m_structure);
   const isize n = m_structure.nsegments();
   if (new_perm != nullptr)
     std::copy_n(new_perm, n, m_perm.data());
@@ -24,7 +24,7 @@ void BlockLDLT<Scalar>::setBlockPermutation(isize const *new_perm) {
 
 template <typename Scalar>
 BlockLDLT<Scalar> &BlockLDLT<Scalar>::findSparsifyingPermutation() {
-  SymbolicBlockMatrix in(m_structure.copy());
+  const backend::OwningSymbolicBlockMatrix in(m_structure);
   m_structure.brute_force_best_permutation(in, m_perm.data(), m_iwork.data());
   symbolic_deep_copy(in, m_structure, m_perm.data());
   analyzePattern();
@@ -36,7 +36,7 @@ template <typename Scalar> bool BlockLDLT<Scalar>::analyzePattern() {
   if (m_structure.performed_llt)
     return true;
   bool flag = m_structure.llt_in_place();
-  m_struct_tr = m_structure.transpose();
+  m_struct_tr = backend::OwningSymbolicBlockMatrix(m_structure.transpose());
   return flag;
 }
 
-- 
2.43.0


From c5ea6ce51bfab0b1299f98dd0944cac95a5adcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 17/35] fix: permute the input block structure, not the
 analysed one

setBlockPermutation() and findSparsifyingPermutation() applied the new
permutation on top of the structure left by the previous call while the
permutation indices are relative to the input matrix: changing the permutation
of a BlockLDLT made it factorize with the wrong sparsity pattern.
---
 include/proxsuite-nlp/linalg/block-ldlt.hpp | 10 ++++++----
 include/proxsuite-nlp/linalg/block-ldlt.hxx |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index de34be1..d18704c 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -242,6 +242,8 @@ template <typename _Scalar> struct BlockLDLT : ldlt_base<_Scalar> {
 
 protected:
   MatrixXs m_matrix;
+  /// Structure of the input matrix, before permutation and analysis.
+  backend::OwningSymbolicBlockMatrix m_struct_in;
   backend::OwningSymbolicBlockMatrix m_structure;
   backend::OwningSymbolicBlockMatrix m_struct_tr;
   PermutationType m_permutation;
@@ -258,10 +260,10 @@ public:
   /// @brief  The constructor copies the input matrix @param mat and symbolic
   /// block pattern @param structure.
   BlockLDLT(isize size, SymbolicBlockMatrix const &structure)
-      : Base(), m_matrix(size, size), m_structure(structure.copy()),
-        m_struct_tr(m_structure.transpose()), m_permutation(size),
-        m_perm(nblocks()), m_perm_inv(nblocks()), m_iwork(nblocks()),
-        m_start_idx(nblocks()) {
+      : Base(), m_matrix(size, size), m_struct_in(structure.copy()),
+        m_structure(m_struct_in), m_struct_tr(m_structure.transpose()),
+        m_permutation(size), m_perm(nblocks()), m_perm_inv(nblocks()),
+        m_iwork(nblocks()), m_start_idx(nblocks()) {
     std::iota(m_perm.begin(), m_perm.end(), isize(0));
     m_permutation.setIdentity();
   }
diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hxx b/include/proxsuite-nlp/linalg/block-ldlt.hxx
index deb41e1..ad56196 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hxx
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hxx
@@ -12,7 +12,7 @@ namespace linalg {
 
 template <typename Scalar>
 void BlockLDLT<Scalar>::setBlockPermutation(isize const *new_perm) {
-  const backend::OwningSymbolicBlockMatrix in(m_structure);
+  const SymbolicBlockMatrix &in = m_struct_in;
   const isize n = m_structure.nsegments();
   if (new_perm != nullptr)
     std::copy_n(new_perm, n, m_perm.data());
@@ -24,7 +24,7 @@ void BlockLDLT<Scalar>::setBlockPermutation(isize const *new_perm) {
 
 template <typename Scalar>
 BlockLDLT<Scalar> &BlockLDLT<Scalar>::findSparsifyingPermutation() {
-  const backend::OwningSymbolicBlockMatrix in(m_structure);
+  const SymbolicBlockMatrix &in = m_struct_in;
   m_structure.brute_force_best_permutation(in, m_perm.data(), m_iwork.data());
   symbolic_deep_copy(in, m_structure, m_perm.data());
   analyzePattern();
-- 
2.43.0


From 3e7a930e27d7adf3a9a950a0c1fe17a246d41b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 18/35] fix: report the sign of the last LDLT factorization

The sign was accumulated over successive calls to compute(), and diagonal
blocks of size one overwrote or skipped it.
---
 include/proxsuite-nlp/linalg/block-ldlt.hpp |  3 +++
 include/proxsuite-nlp/linalg/dense.hpp      | 11 +++--------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index d18704c..de34082 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -33,6 +33,8 @@ template <typename Scalar> struct block_impl {
     const isize nblocks = sym_structure.nsegments();
     const isize n = mat.rows();
     if ((nblocks == 0) || (n <= 1)) {
+      if (n == 1)
+        update_sign_matrix(sign, mat(0, 0));
       return true;
     }
 
@@ -324,6 +326,7 @@ public:
   const MatrixXs &matrixLDLT() const override { return m_matrix; }
 
   inline void compute() {
+    m_sign = SignMatrix::ZeroSign;
     m_info =
         backend::block_impl<Scalar>{m_matrix, m_structure}.ldlt_in_place_impl(
             m_sign)
diff --git a/include/proxsuite-nlp/linalg/dense.hpp b/include/proxsuite-nlp/linalg/dense.hpp
index b4e0478..d2118cc 100644
--- a/include/proxsuite-nlp/linalg/dense.hpp
+++ b/include/proxsuite-nlp/linalg/dense.hpp
@@ -47,14 +47,8 @@ inline bool ldlt_in_place_unblocked(Eigen::MatrixBase<Derived> &a,
   using Scalar = typename Derived::Scalar;
   const isize n = a.rows();
   if (n <= 1) {
-    if (n == 0)
-      sign = SignMatrix::ZeroSign;
-    else if (a(0, 0) > 0)
-      sign = SignMatrix::PositiveSemiDef;
-    else if (a(0, 0) < 0)
-      sign = SignMatrix::NegativeSemiDef;
-    else
-      sign = SignMatrix::ZeroSign;
+    if (n == 1)
+      update_sign_matrix(sign, a(0, 0));
     return true;
   }
 
@@ -181,6 +175,7 @@ template <typename _Scalar> struct DenseLDLT : ldlt_base<_Scalar> {
 
   DenseLDLT &compute(const ConstMatrixRef &mat) {
     m_matrix = mat;
+    m_sign = SignMatrix::ZeroSign;
     m_info = backend::dense_ldlt_in_place(m_matrix, m_sign)
                  ? Eigen::Success
                  : Eigen::NumericalIssue;
-- 
2.43.0


From 5cd8f0640d2d524b67a141aa1ee7daa02e8fd03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 19/35] fix: leave the problem unchanged when addConstraint
 fails to allocate

---
 include/proxsuite-nlp/problem-base.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/proxsuite-nlp/problem-base.hpp b/include/proxsuite-nlp/problem-base.hpp
index acf4bee..7c1e9a9 100644
--- a/include/proxsuite-nlp/problem-base.hpp
+++ b/include/proxsuite-nlp/problem-base.hpp
@@ -57,6 +57,10 @@ public:
 
   /// @brief Add a constraint to the problem, after initialization.
   template <typename T> void addConstraint(T &&cstr) {
+    // allocate first, so that the constraint is either fully added or not at
+    // all
+    ncs_.reserve(constraints_.size() + 1);
+    indices_.reserve(constraints_.size() + 1);
     constraints_.push_back(std::forward<T>(cstr));
     reset_constraint_dim_vars();
   }
-- 
2.43.0


From 739dd875b1f0485f833cd522f9ca77f416382a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 20/35] fix: keep cost sums consistent when added to themselves
 or out of memory

---
 include/proxsuite-nlp/cost-sum.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/proxsuite-nlp/cost-sum.hpp b/include/proxsuite-nlp/cost-sum.hpp
index c0e5d7c..5da4e5f 100644
--- a/include/proxsuite-nlp/cost-sum.hpp
+++ b/include/proxsuite-nlp/cost-sum.hpp
@@ -58,7 +58,12 @@ public:
 
   void addComponent(shared_ptr<Base> comp, const Scalar w = 1.) {
     components_.push_back(comp);
-    weights_.push_back(w);
+    try {
+      weights_.push_back(w);
+    } catch (...) {
+      components_.pop_back();
+      throw;
+    }
   }
 
   CostSumTpl<Scalar> &operator+=(const shared_ptr<Base> &other) {
@@ -67,10 +72,15 @@ public:
   }
 
   CostSumTpl<Scalar> &operator+=(const CostSumTpl<Scalar> &other) {
-    components_.insert(components_.end(), other.components_.begin(),
-                       other.components_.end());
-    weights_.insert(weights_.end(), other.weights_.begin(),
-                    other.weights_.end());
+    // other may be *this, and a failed allocation should leave *this unchanged
+    std::vector<BasePtr> components(components_);
+    std::vector<Scalar> weights(weights_);
+    components.insert(components.end(), other.components_.begin(),
+                      other.components_.end());
+    weights.insert(weights.end(), other.weights_.begin(),
+                   other.weights_.end());
+    components_.swap(components);
+    weights_.swap(weights);
     return *this;
   }
 
-- 
2.43.0


From d51632087546f9ccc05d8fd8d45f2e1a52478148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 21/35] fix: let a cartesian product be added to itself

---
 .../proxsuite-nlp/modelling/spaces/cartesian-product.hpp  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
index 4984353..7423540 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
@@ -35,9 +35,11 @@ public:
   }
 
   inline void addComponent(const CartesianProductTpl &other) {
-    for (const auto &c : other.m_components) {
-      this->addComponent(c);
-    }
+    // other may be *this, and a failed allocation should leave *this unchanged
+    std::vector<polymorphic<Base>> components(m_components);
+    components.insert(components.end(), other.m_components.begin(),
+                      other.m_components.end());
+    m_components.swap(components);
   }
 
   CartesianProductTpl() = default;
-- 
2.43.0


From 1e941292fcf3e9ed73dbd84e7987cc5705bb4fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:26 +0000
Subject: [PATCH 22/35] fix: use the primal-dual prox parameter in the
 primal-dual terms

The primal-dual merit function, its multiplier estimates and the
primal-dual KKT system are built on proximal operators with parameter
beta * mu. They were evaluated with parameter mu, which makes no
difference for projections but is wrong for the l1 penalty: multiplier
estimates ranged over [-2, 2], the merit function penalized twice the
l1 norm, and solves stalled at minimum step sizes.
---
 include/proxsuite-nlp/constraint-set.hpp | 18 ++++++++++++++++++
 include/proxsuite-nlp/pdal.hxx           |  6 +++++-
 include/proxsuite-nlp/prox-solver.hxx    |  7 ++++++-
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/constraint-set.hpp b/include/proxsuite-nlp/constraint-set.hpp
index 6e83db6..6debbb1 100644
--- a/include/proxsuite-nlp/constraint-set.hpp
+++ b/include/proxsuite-nlp/constraint-set.hpp
@@ -115,6 +115,24 @@ protected:
   mutable Scalar mu_inv_;
 };
 
+/// @brief Changes the proximal parameter of a set for the duration of a scope.
+template <typename _Scalar> struct ScopedProxParameterTpl {
+  using Scalar = _Scalar;
+  using ConstraintSet = ConstraintSetTpl<Scalar>;
+
+  ScopedProxParameterTpl(const ConstraintSet &set, const Scalar mu)
+      : set_(set), mu_(set.mu()) {
+    set_.setProxParameter(mu);
+  }
+  ScopedProxParameterTpl(const ScopedProxParameterTpl &) = delete;
+  ScopedProxParameterTpl &operator=(const ScopedProxParameterTpl &) = delete;
+  ~ScopedProxParameterTpl() { set_.setProxParameter(mu_); }
+
+private:
+  const ConstraintSet &set_;
+  const Scalar mu_;
+};
+
 /** @brief    Packs a ConstraintSetTpl and C2FunctionTpl together.
  *
  */
diff --git a/include/proxsuite-nlp/pdal.hxx b/include/proxsuite-nlp/pdal.hxx
index ab4725b..b32ee13 100644
--- a/include/proxsuite-nlp/pdal.hxx
+++ b/include/proxsuite-nlp/pdal.hxx
@@ -22,7 +22,11 @@ Scalar ALMeritFunctionTpl<Scalar>::evaluate(const ConstVectorRef & /*x*/,
     const ConstraintObject &cstr = problem_.getConstraint(i);
     Scalar mu = cstr.set_->mu();
     VectorXs scv_tmp = pd_scv[i];
-    res += 2.0 * cstr.set_->computeMoreauEnvelope(pd_scv[i], scv_tmp);
+    {
+      // the prox operators here have parameter mu/2
+      ScopedProxParameterTpl<Scalar> scope(*cstr.set_, 0.5 * mu);
+      res += cstr.set_->computeMoreauEnvelope(pd_scv[i], scv_tmp);
+    }
     res += mu * lams[i].squaredNorm() / 4.0;
   }
   return res;
diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 4e78484..97ab458 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -191,6 +191,8 @@ void ProxNLPSolverTpl<Scalar>::computeMultipliers(
       workspace.data_shift_cstr_values - 0.5 * mu_ * inner_lams_data;
   for (std::size_t i = 0; i < problem_->getNumConstraints(); i++) {
     const ConstraintSet &cstr_set = *problem_->getConstraint(i).set_;
+    // the primal-dual terms have prox parameter beta * mu
+    ScopedProxParameterTpl<Scalar> scope(cstr_set, pdal_beta_ * mu_);
     cstr_set.normalConeProjection(workspace.shift_cstr_pdal[i],
                                   workspace.lams_pdal[i]);
   }
@@ -203,6 +205,7 @@ void ProxNLPSolverTpl<Scalar>::computeMultipliers(
     // reapply the prox operator Jacobian to multiplier estimate
     cstr_set.applyProjectionJacobian(workspace.shift_cstr_values[i],
                                      workspace.lams_plus_reproj[i]);
+    ScopedProxParameterTpl<Scalar> scope(cstr_set, pdal_beta_ * mu_);
     cstr_set.applyProjectionJacobian(workspace.shift_cstr_pdal[i],
                                      workspace.lams_pdal_reproj[i]);
   }
@@ -222,11 +225,13 @@ void ProxNLPSolverTpl<Scalar>::computeProblemDerivatives(
       cstr_set.applyNormalConeProjectionJacobian(
           workspace.shift_cstr_values[i], workspace.cstr_jacobians_proj[i]);
       break;
-    case KKT_PRIMAL_DUAL:
+    case KKT_PRIMAL_DUAL: {
+      ScopedProxParameterTpl<Scalar> scope(cstr_set, pdal_beta_ * mu_);
       cstr_set.applyNormalConeProjectionJacobian(
           workspace.shift_cstr_pdal[i], workspace.cstr_jacobians_proj[i]);
       break;
     }
+    }
   }
 }
 
-- 
2.43.0


From bd193c199cfbb27e3c3b0113273f1ba964b9ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 23/35] fix: build the requested type from an initializer list

polymorphic(in_place_type_t<U>, {...}) created a T (the base class) instead of
a U, or did not compile when T has no such constructor.
---
 include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
index ef397bc..0147f7b 100644
--- a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
+++ b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
@@ -228,7 +228,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
   polymorphic(std::allocator_arg_t, const A& alloc, in_place_type_t<U>,
               std::initializer_list<I> ilist, Ts&&... ts)
       : alloc_base(alloc) {
-    cb_ = create_control_block<T>(ilist, std::forward<Ts>(ts)...);
+    cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
   }
 
   template <
-- 
2.43.0


From fc9c52a3af6863b22d4a301bfc045ae08c9d1a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 24/35] fix: do not move objects across unequal allocators

Whether copy assignment propagates the allocator says nothing about this
constructor, which is given the allocator to use: the object was later released
with an allocator that did not allocate it.
---
 .../proxsuite-nlp/third-party/polymorphic_cxx14.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
index 0147f7b..f78889b 100644
--- a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
+++ b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
@@ -324,19 +324,14 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_arg_t, const A& alloc,
       polymorphic&& other) noexcept(allocator_traits::is_always_equal::value)
       : alloc_base(alloc) {
-    if (allocator_traits::propagate_on_container_copy_assignment::value) {
+    if (get_allocator() == other.get_allocator()) {
       cb_ = other.cb_;
       other.cb_ = nullptr;
     } else {
-      if (get_allocator() == other.get_allocator()) {
-        cb_ = other.cb_;
-        other.cb_ = nullptr;
+      if (!other.valueless_after_move()) {
+        cb_ = other.cb_->move(alloc_base::get());
       } else {
-        if (!other.valueless_after_move()) {
-          cb_ = other.cb_->move(alloc_base::get());
-        } else {
-          cb_ = nullptr;
-        }
+        cb_ = nullptr;
       }
     }
   }
-- 
2.43.0


From f5ca8f293436b23dfa58292227118256a86c9adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 25/35] fix: move-assign polymorphics without allocating when
 they can be

With an allocator that propagates, move assignment is noexcept but allocated
and moved the object when the allocators differed, so that a failure terminated
the program; the object can come along with its allocator. Move-assigning a part
of the object owned by the left-hand side destroyed that object while it owned
itself.
---
 .../third-party/polymorphic_cxx14.hpp         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
index f78889b..8e9f8c5 100644
--- a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
+++ b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
@@ -378,24 +378,24 @@ class polymorphic : private detail::empty_base_optimization<A> {
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
-    if (other.valueless_after_move()) {
-      reset();
-    } else {
-      if (alloc_base::get() == other.alloc_base::get()) {
-        std::swap(cb_, other.cb_);
-        other.reset();
+    // other may be part of the object that goes away.
+    const A new_alloc(update_alloc ? other.alloc_base::get()
+                                   : alloc_base::get());
+    cblock_t* tmp = nullptr;
+    if (!other.valueless_after_move()) {
+      if (new_alloc == other.alloc_base::get()) {
+        tmp = other.cb_;
+        other.cb_ = nullptr;
       } else {
         // Constructing a new control block could throw so we need to defer
         // resetting or updating allocators until this is done.
-        auto tmp = other.cb_->move(update_alloc ? other.alloc_base::get()
-                                                : alloc_base::get());
-        reset();
-        cb_ = tmp;
+        tmp = other.cb_->move(new_alloc);
       }
     }
-
+    reset();
+    cb_ = tmp;
     if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
+      alloc_base::get() = new_alloc;
     }
     return *this;
   }
-- 
2.43.0


From 4dc7d6346b53e8c39909e019e43063d5c6f4c5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 26/35] fix: let a polymorphic be assigned a part of its own
 value

The allocator to take over was read from the right-hand side after that had been
destroyed with the previous value.
---
 .../third-party/polymorphic_cxx14.hpp         | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
index 8e9f8c5..05ed1d8 100644
--- a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
+++ b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
@@ -351,18 +351,19 @@ class polymorphic : private detail::empty_base_optimization<A> {
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
-    if (other.valueless_after_move()) {
-      reset();
-    } else {
-      // Constructing a new control block could throw so we need to defer
-      // resetting or updating allocators until this is done.
-      auto tmp = other.cb_->clone(update_alloc ? other.alloc_base::get()
-                                               : alloc_base::get());
-      reset();
-      cb_ = tmp;
+    // other may be part of the object that goes away.
+    const A new_alloc(update_alloc ? other.alloc_base::get()
+                                   : alloc_base::get());
+    // Constructing a new control block could throw so we need to defer
+    // resetting or updating allocators until this is done.
+    cblock_t* tmp = nullptr;
+    if (!other.valueless_after_move()) {
+      tmp = other.cb_->clone(new_alloc);
     }
+    reset();
+    cb_ = tmp;
     if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
+      alloc_base::get() = new_alloc;
     }
     return *this;
   }
-- 
2.43.0


From 65932d0975bf9e832b103f7df9b27c224f4c4c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:40 +0000
Subject: [PATCH 27/35] fix: skip BFGS updates with infinite curvature

An infinite entry of a gradient made the whole Hessian approximation NaN, so
that every later solve failed until the next setup(); NaN entries were already
skipped.
---
 include/proxsuite-nlp/bfgs-strategy.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/bfgs-strategy.hpp b/include/proxsuite-nlp/bfgs-strategy.hpp
index 8123fc6..f68e78a 100644
--- a/include/proxsuite-nlp/bfgs-strategy.hpp
+++ b/include/proxsuite-nlp/bfgs-strategy.hpp
@@ -3,6 +3,8 @@
 #pragma once
 #include "proxsuite-nlp/fwd.hpp"
 
+#include <limits>
+
 namespace proxsuite {
 namespace nlp {
 
@@ -53,7 +55,8 @@ public:
     y = g - g_prev;
     const Scalar sy = s.dot(y);
 
-    if (sy > 0) {
+    // an infinite product (say, of an infinite gradient) teaches nothing
+    if (sy > 0 && sy <= std::numeric_limits<Scalar>::max()) {
       if constexpr (BFGS_TYPE == BFGSType::InverseHessian) {
         // Nocedal and Wright, Numerical Optimization, 2nd ed., p. 140, eqn 6.17
         // (BFGS update)
@@ -73,7 +76,7 @@ public:
       is_psd = true;
     } else {
       is_psd = false;
-      PROXSUITE_NLP_WARN("Skipping BFGS update as s^Ty <= 0");
+      PROXSUITE_NLP_WARN("Skipping BFGS update as s^Ty <= 0 or is not finite");
     }
     x_prev = x;
     g_prev = g;
-- 
2.43.0


From 1d7a59c575d1398720cd642387950ab165dc5ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:10 +0000
Subject: [PATCH 28/35] fix: log again when verbosity is raised after a quiet
 solve

A solve with verbose == QUIET turned the logger off for good: later solves with
a higher verbosity stayed silent.
---
 include/proxsuite-nlp/prox-solver.hxx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 97ab458..fdb7113 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -51,9 +51,6 @@ ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
 template <typename Scalar>
 ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
                                                 const ConstVectorRef &lams0) {
-  if (verbose == 0)
-    logger.active = false;
-
   if ((results_ == nullptr) || (workspace_ == nullptr)) {
     PROXSUITE_NLP_RUNTIME_ERROR(
         "Either Results or Workspace are unitialized. Call setup() first.");
@@ -82,7 +79,8 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
   std::size_t &al_iter = results.al_iters;
   i = 0;
   al_iter = 0;
-  logger.start();
+  if (verbose != QUIET)
+    logger.start();
   while ((i < max_iters) && (al_iter < max_al_iters)) {
     results.mu = mu_;
     results.rho = rho_;
@@ -488,7 +486,8 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
                      phi_new - phi0,
                      results.al_iters + 1};
 
-    logger.log(record);
+    if (verbose != QUIET)
+      logger.log(record);
 
     results.num_iters++;
     if (results.num_iters >= max_iters) {
-- 
2.43.0


From fc3293ae0280880dd37b39282834f82fd75e1755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:10 +0000
Subject: [PATCH 29/35] fix: print nothing about the outcome in quiet mode

solve() wrote to the standard output whatever the verbosity, so that a closed
or full standard output made a converged quiet solve raise std::system_error
and lose its final callbacks.
---
 include/proxsuite-nlp/prox-solver.hxx | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index fdb7113..9b080c7 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -110,19 +110,21 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
     al_iter++;
   }
 
-  if (results.converged == SUCCESS)
-    fmt::print(fmt::fg(fmt::color::dodger_blue),
-               "Solver successfully converged");
-
-  switch (results.converged) {
-  case MAX_ITERS_REACHED:
-    fmt::print(fmt::fg(fmt::color::orange_red),
-               "Max number of iterations reached.");
-    break;
-  default:
-    break;
+  if (verbose != QUIET) {
+    switch (results.converged) {
+    case SUCCESS:
+      fmt::print(fmt::fg(fmt::color::dodger_blue),
+                 "Solver successfully converged");
+      break;
+    case MAX_ITERS_REACHED:
+      fmt::print(fmt::fg(fmt::color::orange_red),
+                 "Max number of iterations reached.");
+      break;
+    default:
+      break;
+    }
+    fmt::print("\n");
   }
-  fmt::print("\n");
 
   invokeCallbacks(workspace, results);
 
-- 
2.43.0


From 7fa1883d8eaa247ea88c9af6d1c8c76bcbc3b374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:23 +0000
Subject: [PATCH 30/35] fix: evaluate the residual of a quadratic cost where
 its derivatives are asked

---
 .../proxsuite-nlp/modelling/costs/quadratic-residual.hxx   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx b/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
index e02d75e..1ec783f 100644
--- a/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
+++ b/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
@@ -37,6 +37,7 @@ Scalar QuadraticResidualCostTpl<Scalar>::call(const ConstVectorRef &x) const {
 template <typename Scalar>
 void QuadraticResidualCostTpl<Scalar>::computeGradient(const ConstVectorRef &x,
                                                        VectorRef out) const {
+  err = (*residual_)(x);
   residual_->computeJacobian(x, Jres);
 
   JtW.noalias() = Jres.transpose() * weights_;
@@ -47,10 +48,10 @@ void QuadraticResidualCostTpl<Scalar>::computeGradient(const ConstVectorRef &x,
 template <typename Scalar>
 void QuadraticResidualCostTpl<Scalar>::computeHessian(const ConstVectorRef &x,
                                                       MatrixRef out) const {
-  tmp_w_err.noalias() = weights_ * err;
-  tmp_w_err += slope_;
-
   if (!gauss_newton_) {
+    err = (*residual_)(x);
+    tmp_w_err.noalias() = weights_ * err;
+    tmp_w_err += slope_;
     residual_->vectorHessianProduct(x, tmp_w_err, H);
     out = H;
   } else {
-- 
2.43.0


From c1747ac3e06d0232d090368c7ab2e85fe3b4ccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:59 +0000
Subject: [PATCH 31/35] fix: interpolate the velocities of a tangent bundle

---
 include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx b/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
index 1836f88..8420939 100644
--- a/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
+++ b/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
@@ -84,8 +84,8 @@ void TangentBundleTpl<Base>::interpolate_impl(const ConstVectorRef &x0,
                                               VectorRef out) const {
   base_.interpolate(getBasePoint(x0), getBasePoint(x1), u,
                     getBasePointWrite(out));
-  out.tail(base_.ndx()) =
-      (Scalar(1.) - u) * getBaseTangent(x0) + u * getBaseTangent(x1);
+  const int nv_ = base_.ndx();
+  out.tail(nv_) = (Scalar(1.) - u) * x0.tail(nv_) + u * x1.tail(nv_);
 }
 
 } // namespace nlp
-- 
2.43.0


From 80e909f569dc87f0ed8b8a3f2e1096b7f36e4c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 32/35] fix: keep the line endings of bunchkaufman.hpp

The repair of its pivoting had rewritten them.
---
 include/proxsuite-nlp/linalg/bunchkaufman.hpp | 1338 ++++++++---------
 1 file changed, 669 insertions(+), 669 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/bunchkaufman.hpp b/include/proxsuite-nlp/linalg/bunchkaufman.hpp
index 442db0b..18693fa 100644
--- a/include/proxsuite-nlp/linalg/bunchkaufman.hpp
+++ b/include/proxsuite-nlp/linalg/bunchkaufman.hpp
@@ -1,669 +1,669 @@
-/// @file
-/// @author Sarah El-Kazdadi
-/// @copyright Copyright (C) 2023
-#pragma once
-
-#include "Eigen/Core"
-
-namespace Eigen {
-template <typename MatrixType_, int UpLo_ = Lower> struct BunchKaufman;
-
-namespace internal {
-template <typename MatrixType_, int UpLo_>
-struct traits<BunchKaufman<MatrixType_, UpLo_>> : traits<MatrixType_> {
-  typedef MatrixXpr XprKind;
-  typedef SolverStorage StorageKind;
-  typedef int StorageIndex;
-  enum { Flags = 0 };
-};
-
-template <typename MatrixType, typename IndicesType>
-ComputationInfo bunch_kaufman_in_place_unblocked(MatrixType &a,
-                                                 IndicesType &pivots,
-                                                 Index &pivot_count) {
-  using Scalar = typename MatrixType::Scalar;
-  using Real = typename Eigen::NumTraits<Scalar>::Real;
-  const Real alpha = (Real(1) + numext::sqrt(Real(17))) / Real(8);
-  using std::swap;
-
-  pivot_count = 0;
-
-  const Index n = a.rows();
-  if (n == 0) {
-    return Success;
-  } else if (n == 1) {
-    if (numext::abs(numext::real(a(0, 0))) == Real(0)) {
-      return NumericalIssue;
-    } else {
-      a(0, 0) = Real(1) / numext::real(a(0, 0));
-      return Success;
-    }
-  }
-
-  Index k = 0;
-  while (k < n) {
-    Index k_step = 1;
-    Real abs_akk = numext::abs(numext::real(a(k, k)));
-    Index imax = 0;
-    Real colmax = Real(0);
-
-    if (k + 1 < n) {
-      colmax = a.col(k).segment(k + 1, n - k - 1).cwiseAbs().maxCoeff(&imax);
-    }
-    imax += k + 1;
-
-    Index kp;
-    if (!(numext::isfinite)(abs_akk) || !(numext::isfinite)(colmax) ||
-        numext::maxi(abs_akk, colmax) == Real(0)) {
-      return NumericalIssue;
-    } else {
-      if (abs_akk >= colmax * alpha) {
-        kp = k;
-      } else {
-        Real rowmax = Real(0);
-        if (imax - k > 0) {
-          rowmax = a.row(imax).segment(k, imax - k).cwiseAbs().maxCoeff();
-        }
-        if (n - imax - 1 > 0) {
-          rowmax = numext::maxi(rowmax, a.col(imax)
-                                            .segment(imax + 1, n - imax - 1)
-                                            .cwiseAbs()
-                                            .maxCoeff());
-        }
-
-        if (abs_akk >= (alpha * colmax) * (colmax / rowmax)) {
-          kp = k;
-        } else if (numext::abs(numext::real(a(imax, imax))) >= alpha * rowmax) {
-          kp = imax;
-        } else {
-          kp = imax;
-          k_step = 2;
-        }
-      }
-
-      Index kk = k + k_step - 1;
-      if (kp != kk) {
-        pivot_count += 1;
-        a.col(kk)
-            .segment(kp + 1, n - kp - 1)
-            .swap(a.col(kp).segment(kp + 1, n - kp - 1));
-
-        for (Index j = kk + 1; j < kp; ++j) {
-          Scalar tmp = a(j, kk);
-          a(j, kk) = numext::conj(a(kp, j));
-          a(kp, j) = numext::conj(tmp);
-        }
-        a(kp, kk) = numext::conj(a(kp, kk));
-        swap(a(kk, kk), a(kp, kp));
-
-        if (k_step == 2) {
-          swap(a(k + 1, k), a(kp, k));
-        }
-      }
-
-      if (k_step == 1) {
-        Real d11 = Real(1) / numext::real(a(k, k));
-        a(k, k) = Scalar(d11);
-
-        auto x = a.middleRows(k + 1, n - k - 1).col(k);
-        auto trailing =
-            a.middleRows(k + 1, n - k - 1).middleCols(k + 1, n - k - 1);
-
-        for (Index j = 0; j < n - k - 1; ++j) {
-          Scalar d11xj = numext::conj(x(j)) * d11;
-          for (Index i = j; i < n - k - 1; ++i) {
-            Scalar xi = x(i);
-            trailing(i, j) -= d11xj * xi;
-          }
-          trailing(j, j) = Scalar(numext::real(trailing(j, j)));
-        }
-
-        x *= d11;
-      } else {
-        Real d21_abs = numext::abs(a(k + 1, k));
-        Real d21_inv = Real(1) / d21_abs;
-        Real d11 = d21_inv * numext::real(a(k + 1, k + 1));
-        Real d22 = d21_inv * numext::real(a(k, k));
-
-        Real t = Real(1) / ((d11 * d22) - Real(1));
-        Real d = t * d21_inv;
-        Scalar d21 = a(k + 1, k) * d21_inv;
-
-        a(k, k) = Scalar(d11 * d);
-        a(k + 1, k) = -d21 * d;
-        a(k + 1, k + 1) = Scalar(d22 * d);
-
-        for (Index j = k + 2; j < n; ++j) {
-          Scalar wk = ((a(j, k) * d11) - (a(j, k + 1) * d21)) * d;
-          Scalar wkp1 =
-              ((a(j, k + 1) * d22) - (a(j, k) * numext::conj(d21))) * d;
-
-          for (Index i = j; i < n; ++i) {
-            a(i, j) -=
-                a(i, k) * numext::conj(wk) + a(i, k + 1) * numext::conj(wkp1);
-          }
-          a(j, j) = Scalar(numext::real(a(j, j)));
-
-          a(j, k) = wk;
-          a(j, k + 1) = wkp1;
-        }
-      }
-    }
-
-    // pivots matrix store int by default
-    // Like Eigen, we assume that we will never
-    // have a matrix that will have more rows/columns
-    // than int can old
-    if (k_step == 1) {
-      pivots[k] = static_cast<int>(kp);
-    } else {
-      pivots[k] = static_cast<int>(-1 - kp);
-      pivots[k + 1] = static_cast<int>(-1 - kp);
-    }
-
-    k += k_step;
-  }
-
-  return Success;
-}
-
-template <typename MatrixType, typename WType, typename IndicesType>
-ComputationInfo
-bunch_kaufman_in_place_one_block(MatrixType &a, WType &w, IndicesType &pivots,
-                                 Index &pivot_count, Index &processed_cols) {
-  using Scalar = typename MatrixType::Scalar;
-  using Real = typename Eigen::NumTraits<Scalar>::Real;
-
-  pivot_count = 0;
-  processed_cols = 0;
-  Real alpha = (Real(1) + numext::sqrt(Real(17))) / Real(8);
-
-  Index n = a.rows();
-  if (n == 0) {
-    return Success;
-  }
-
-  Index nb = w.cols();
-  Index k = 0;
-  while (k < n && k + 1 < nb) {
-    w.col(k).segment(k, n - k) = a.col(k).segment(k, n - k);
-    {
-      auto w_row = w.row(k).segment(0, k);
-      auto w_col = w.col(k).segment(k, n - k);
-      w_col.noalias() -= a.block(k, 0, n - k, k) * w_row.transpose();
-    }
-    w(k, k) = Scalar(numext::real(w(k, k)));
-
-    Index k_step = 1;
-    Real abs_akk = numext::abs(numext::real(w(k, k)));
-    Index imax = 0;
-    Real colmax = Real(0);
-
-    if (k + 1 < n) {
-      colmax = w.col(k).segment(k + 1, n - k - 1).cwiseAbs().maxCoeff(&imax);
-    }
-    imax += k + 1;
-
-    Index kp;
-    if (!(numext::isfinite)(abs_akk) || !(numext::isfinite)(colmax) ||
-        numext::maxi(abs_akk, colmax) == Real(0)) {
-      return NumericalIssue;
-    } else {
-      if (abs_akk >= colmax * alpha) {
-        kp = k;
-      } else {
-        w.col(k + 1).segment(k, imax - k) =
-            a.row(imax).segment(k, imax - k).adjoint();
-        w.col(k + 1).segment(imax, n - imax) =
-            a.col(imax).segment(imax, n - imax);
-
-        {
-          auto w_row = w.row(imax).segment(0, k);
-          auto w_col = w.col(k + 1).segment(k, n - k);
-          w_col.noalias() -= a.block(k, 0, n - k, k) * w_row.transpose();
-        }
-        w(imax, k + 1) = Scalar(numext::real(w(imax, k + 1)));
-
-        Real rowmax = Real(0);
-        if (imax - k > 0) {
-          rowmax = w.col(k + 1).segment(k, imax - k).cwiseAbs().maxCoeff();
-        }
-        if (n - imax - 1 > 0) {
-          rowmax = numext::maxi(rowmax, w.col(k + 1)
-                                            .segment(imax + 1, n - imax - 1)
-                                            .cwiseAbs()
-                                            .maxCoeff());
-        }
-
-        if (abs_akk >= (alpha * colmax) * (colmax / rowmax)) {
-          kp = k;
-        } else if (numext::abs(numext::real(w(imax, k + 1))) >=
-                   alpha * rowmax) {
-          kp = imax;
-          w.col(k).segment(k, n - k) = w.col(k + 1).segment(k, n - k);
-        } else {
-          kp = imax;
-          k_step = 2;
-        }
-      }
-
-      Index kk = k + k_step - 1;
-      if (kp != kk) {
-        pivot_count += 1;
-
-        a(kp, kp) = a(kk, kk);
-        for (Index j = kk + 1; j < kp; ++j) {
-          a(kp, j) = numext::conj(a(j, kk));
-        }
-        a.col(kp).segment(kp + 1, n - kp - 1) =
-            a.col(kk).segment(kp + 1, n - kp - 1);
-        a.row(kk).segment(0, k).swap(a.row(kp).segment(0, k));
-        w.row(kk).segment(0, kk + 1).swap(w.row(kp).segment(0, kk + 1));
-      }
-
-      if (k_step == 1) {
-        a.col(k).segment(k, n - k) = w.col(k).segment(k, n - k);
-
-        Real d11 = Real(1) / numext::real(w(k, k));
-        a(k, k) = Scalar(d11);
-        auto x = a.middleRows(k + 1, n - k - 1).col(k);
-        x *= d11;
-        w.col(k).segment(k + 1, n - k - 1) =
-            w.col(k).segment(k + 1, n - k - 1).conjugate();
-      } else {
-        Real d21_abs = numext::abs(w(k + 1, k));
-        Real d21_inv = Real(1) / d21_abs;
-        Real d11 = d21_inv * numext::real(w(k + 1, k + 1));
-        Real d22 = d21_inv * numext::real(w(k, k));
-
-        Real t = Real(1) / ((d11 * d22) - Real(1));
-        Scalar d21 = w(k + 1, k) * d21_inv;
-        Real d = t * d21_inv;
-
-        a(k, k) = Scalar(d11 * d);
-        a(k + 1, k) = -d21 * d;
-        a(k + 1, k + 1) = Scalar(d22 * d);
-
-        for (Index j = k + 2; j < n; ++j) {
-          Scalar wk = ((w(j, k) * d11) - (w(j, k + 1) * d21)) * d;
-          Scalar wkp1 =
-              ((w(j, k + 1) * d22) - (w(j, k) * numext::conj(d21))) * d;
-
-          a(j, k) = wk;
-          a(j, k + 1) = wkp1;
-        }
-
-        w.col(k).segment(k + 1, n - k - 1) =
-            w.col(k).segment(k + 1, n - k - 1).conjugate();
-        w.col(k + 1).segment(k + 2, n - k - 2) =
-            w.col(k + 1).segment(k + 2, n - k - 2).conjugate();
-      }
-    }
-
-    // pivots matrix store int by default
-    // Like Eigen, we assume that we will never
-    // have a matrix that will have more rows/columns
-    // than int can old
-    if (k_step == 1) {
-      pivots[k] = static_cast<int>(kp);
-    } else {
-      pivots[k] = static_cast<int>(-1 - kp);
-      pivots[k + 1] = static_cast<int>(-1 - kp);
-    }
-
-    k += k_step;
-  }
-
-  auto a_left = a.bottomRows(n - k).leftCols(k);
-  auto a_right = a.bottomRows(n - k).rightCols(n - k);
-
-  a_right.template triangularView<Lower>() -=
-      a_left * w.block(k, 0, n - k, k).transpose();
-  Index j = k - 1;
-  processed_cols = k;
-
-  while (true) {
-    Index jj = j;
-    Index jp = pivots[j];
-    if (jp < 0) {
-      jp = -1 - jp;
-      j -= 1;
-    }
-
-    if (j == 0) {
-      return Success;
-    }
-    j -= 1;
-    if (jp != jj) {
-      a.row(jp).segment(0, j + 1).swap(a.row(jj).segment(0, j + 1));
-    }
-    if (j == 0) {
-      return Success;
-    }
-  }
-}
-
-template <typename MatrixType, typename VecType, typename IndicesType,
-          typename WorkspaceType>
-ComputationInfo bunch_kaufman_in_place(MatrixType &a, VecType &subdiag,
-                                       IndicesType &pivots, WorkspaceType &w,
-                                       Index &pivot_count) {
-  Index n = a.rows();
-
-  const Index blocksize = w.cols();
-
-  Index k = 0;
-  while (k < n) {
-    Index kb = 0;
-    Index k_pivot_count = 0;
-    auto a_block = a.block(k, k, n - k, n - k);
-    auto pivots_block = pivots.segment(k, n - k);
-    ComputationInfo info = InvalidInput;
-    if (blocksize != 0 && blocksize < n - k) {
-      info = internal::bunch_kaufman_in_place_one_block(
-          a_block, w, pivots_block, k_pivot_count, kb);
-    } else {
-      info = internal::bunch_kaufman_in_place_unblocked(a_block, pivots_block,
-                                                        k_pivot_count);
-      kb = n - k;
-    }
-    if (info != Success) {
-      return info;
-    }
-
-    for (Index j = k; j < k + kb; ++j) {
-      auto &p = pivots.coeffRef(j);
-      // pivots matrix store int by default
-      // Like Eigen, we assume that we will never
-      // have a matrix that will have more rows/columns
-      // than int can old
-      if (p >= 0) {
-        p += static_cast<int>(k);
-      } else {
-        p -= static_cast<int>(k);
-      }
-    }
-
-    pivot_count += k_pivot_count;
-    k += kb;
-  }
-
-  using Scalar = typename MatrixType::Scalar;
-
-  k = 0;
-  while (k < n) {
-    if (pivots[k] < 0) {
-      subdiag(k) = a(k + 1, k);
-      subdiag(k + 1) = Scalar(0);
-      a(k + 1, k) = Scalar(0);
-      k += 2;
-    } else {
-      subdiag(k) = Scalar(0);
-      k += 1;
-    }
-  }
-
-  k = 0;
-  while (k < n) {
-    Index p = pivots[k];
-    if (p < 0) {
-      p = -1 - p;
-      a.row(k + 1).segment(0, k).swap(a.row(p).segment(0, k));
-      k += 2;
-    } else {
-      a.row(k).segment(0, k).swap(a.row(p).segment(0, k));
-      k += 1;
-    }
-  }
-
-  return Success;
-}
-
-template <typename MatrixType, bool Conjugate> struct BK_Traits;
-
-template <typename MatrixType> struct BK_Traits<MatrixType, false> {
-  typedef TriangularView<const MatrixType, UnitLower> MatrixL;
-  typedef TriangularView<const typename MatrixType::AdjointReturnType,
-                         UnitUpper>
-      MatrixU;
-  static inline MatrixL getL(const MatrixType &m) { return MatrixL(m); }
-  static inline MatrixU getU(const MatrixType &m) {
-    return MatrixU(m.adjoint());
-  }
-};
-
-template <typename MatrixType> struct BK_Traits<MatrixType, true> {
-  typedef typename MatrixType::ConjugateReturnType ConjugateReturnType;
-  typedef TriangularView<const ConjugateReturnType, UnitLower> MatrixL;
-  typedef TriangularView<const typename MatrixType::TransposeReturnType,
-                         UnitUpper>
-      MatrixU;
-  static inline MatrixL getL(const MatrixType &m) {
-    return MatrixL(m.conjugate());
-  }
-  static inline MatrixU getU(const MatrixType &m) {
-    return MatrixU(m.transpose());
-  }
-};
-
-template <bool Conjugate, typename MatrixType, typename VecType,
-          typename IndicesType, typename Rhs>
-void bunch_kaufman_solve_in_place(MatrixType const &L, VecType const &subdiag,
-                                  IndicesType const &pivots, Rhs &x) {
-  Index n = L.rows();
-
-  Index k;
-
-  k = 0;
-  while (k < n) {
-    Index p = pivots(k);
-    if (p < 0) {
-      p = -1 - p;
-      x.row(k + 1).swap(x.row(p));
-      k += 2;
-    } else {
-      x.row(k).swap(x.row(p));
-      k += 1;
-    }
-  }
-
-  using Traits = BK_Traits<MatrixType, Conjugate>;
-
-  Traits::getL(L).solveInPlace(x);
-
-  k = 0;
-  while (k < n) {
-    Index p = pivots(k);
-    if (p < 0) {
-      using Scalar = typename MatrixType::Scalar;
-      using Real = typename Eigen::NumTraits<Scalar>::Real;
-
-      Scalar akp1k = subdiag(k);
-      Real ak = numext::real(L(k, k));
-      Real akp1 = numext::real(L(k + 1, k + 1));
-
-      if (Conjugate) {
-        akp1k = numext::conj(akp1k);
-      }
-
-      for (Index j = 0; j < x.cols(); ++j) {
-        Scalar xk = x(k, j);
-        Scalar xkp1 = x(k + 1, j);
-
-        x(k, j) = xk * ak + xkp1 * numext::conj(akp1k);
-        x(k + 1, j) = xkp1 * akp1 + xk * akp1k;
-      }
-
-      k += 2;
-    } else {
-      x.row(k) *= numext::real(L(k, k));
-      k += 1;
-    }
-  }
-
-  Traits::getU(L).solveInPlace(x);
-
-  k = n;
-  while (k > 0) {
-    k -= 1;
-    Index p = pivots(k);
-    if (p < 0) {
-      p = -1 - p;
-      x.row(k).swap(x.row(p));
-      k -= 1;
-    } else {
-      x.row(k).swap(x.row(p));
-    }
-  }
-}
-} // namespace internal
-
-template <typename MatrixType_, int UpLo_>
-struct BunchKaufman : SolverBase<BunchKaufman<MatrixType_, UpLo_>> {
-  enum {
-    MaxRowsAtCompileTime = MatrixType_::MaxRowsAtCompileTime,
-    MaxColsAtCompileTime = MatrixType_::MaxColsAtCompileTime,
-    UpLo = UpLo_
-  };
-  using MatrixType = MatrixType_;
-  using PlainObject = typename MatrixType::PlainObject;
-  using Base = SolverBase<BunchKaufman>;
-  static constexpr Index BlockSize = 32;
-  EIGEN_GENERIC_PUBLIC_INTERFACE(BunchKaufman)
-  using VecType = Matrix<Scalar, RowsAtCompileTime, 1, Eigen::DontAlign,
-                         MaxRowsAtCompileTime>;
-  friend class SolverBase<BunchKaufman>;
-
-  using IndicesType =
-      typename Transpositions<RowsAtCompileTime,
-                              MaxRowsAtCompileTime>::IndicesType;
-  using PermutationType =
-      PermutationMatrix<RowsAtCompileTime, MaxRowsAtCompileTime>;
-
-  BunchKaufman()
-      : m_matrix(), m_subdiag(), m_pivot_count(0), m_pivots(),
-        m_isInitialized(false), m_info(ComputationInfo::InvalidInput),
-        m_blocksize(), m_workspace() {}
-  explicit BunchKaufman(Index size)
-      : m_matrix(size, size), m_subdiag(size), m_pivot_count(0), m_pivots(size),
-        m_isInitialized(false), m_info(ComputationInfo::InvalidInput),
-        m_blocksize(size <= BlockSize ? 0 : BlockSize),
-        m_workspace(size, m_blocksize) {}
-
-  template <typename InputType>
-  explicit BunchKaufman(const EigenBase<InputType> &matrix)
-      : m_matrix(matrix.rows(), matrix.cols()), m_subdiag(matrix.rows()),
-        m_pivot_count(0), m_pivots(matrix.rows()), m_isInitialized(false),
-        m_info(ComputationInfo::InvalidInput),
-        m_blocksize(matrix.rows() <= BlockSize ? 0 : BlockSize),
-        m_workspace(matrix.rows(), m_blocksize) {
-    this->compute(matrix.derived());
-  }
-
-  // EIGEN_DEVICE_FUNC inline EIGEN_CONSTEXPR Index rows() const EIGEN_NOEXCEPT
-  // { return m_matrix.rows(); }
-  EIGEN_DEVICE_FUNC inline Index rows() const EIGEN_NOEXCEPT {
-    return m_matrix.rows();
-  }
-  // EIGEN_DEVICE_FUNC inline EIGEN_CONSTEXPR Index cols() const EIGEN_NOEXCEPT
-  // { return m_matrix.cols(); }
-  EIGEN_DEVICE_FUNC inline Index cols() const EIGEN_NOEXCEPT {
-    return m_matrix.cols();
-  }
-
-  inline const MatrixType &matrixLDLT() const { return m_matrix; }
-
-  inline const IndicesType &pivots() const { return m_pivots; }
-
-  inline const VecType &subdiag() const { return m_subdiag; }
-
-  template <typename InputType>
-  BunchKaufman &compute(const EigenBase<InputType> &matrix);
-
-  ComputationInfo info() const { return m_info; }
-
-#ifdef EIGEN_PARSED_BY_DOXYGEN
-  template <typename Rhs>
-  inline const Solve<LDLT, Rhs> solve(const MatrixBase<Rhs> &b) const;
-#endif
-
-#ifndef EIGEN_PARSED_BY_DOXYGEN
-  template <typename RhsType, typename DstType>
-  void _solve_impl(const RhsType &rhs, DstType &dst) const;
-
-  template <bool Conjugate, typename RhsType, typename DstType>
-  void _solve_impl_transposed(const RhsType &rhs, DstType &dst) const;
-
-  template <typename RhsType>
-  bool solveInPlace(Eigen::MatrixBase<RhsType> &bAndX) const;
-#endif
-
-private:
-  MatrixType m_matrix;
-  VecType m_subdiag;
-  Index m_pivot_count;
-  IndicesType m_pivots;
-  bool m_isInitialized;
-  ComputationInfo m_info;
-  Index m_blocksize;
-  PlainObject m_workspace;
-};
-
-#ifndef EIGEN_PARSED_BY_DOXYGEN
-template <typename MatrixType_, int UpLo_>
-template <typename RhsType, typename DstType>
-void BunchKaufman<MatrixType_, UpLo_>::_solve_impl(const RhsType &rhs,
-                                                   DstType &dst) const {
-  dst = rhs;
-  internal::bunch_kaufman_solve_in_place<false>(this->m_matrix, this->m_subdiag,
-                                                this->m_pivots, dst);
-}
-
-template <typename MatrixType_, int UpLo_>
-template <bool Conjugate, typename RhsType, typename DstType>
-void BunchKaufman<MatrixType_, UpLo_>::_solve_impl_transposed(
-    const RhsType &rhs, DstType &dst) const {
-  dst = rhs;
-  internal::bunch_kaufman_solve_in_place<!Conjugate>(
-      this->m_matrix, this->m_subdiag, this->m_pivots, dst);
-}
-
-template <typename MatrixType_, int UpLo_>
-template <typename RhsType>
-bool BunchKaufman<MatrixType_, UpLo_>::solveInPlace(
-    Eigen::MatrixBase<RhsType> &bAndX) const {
-  bAndX = this->solve(bAndX);
-
-  return true;
-}
-#endif
-
-template <typename MatrixType_, int UpLo_>
-template <typename InputType>
-BunchKaufman<MatrixType_, UpLo_> &
-BunchKaufman<MatrixType_, UpLo_>::compute(const EigenBase<InputType> &a) {
-  eigen_assert(a.rows() == a.cols());
-  Index n = a.rows();
-  this->m_matrix.resize(n, n);
-  this->m_subdiag.resize(n);
-  this->m_pivots.resize(n);
-
-  this->m_matrix.setZero();
-  this->m_subdiag.setZero();
-  this->m_pivots.setZero();
-  this->m_blocksize = n <= BlockSize ? 0 : BlockSize;
-  this->m_workspace.setZero(n, this->m_blocksize);
-
-  this->m_matrix.template triangularView<Lower>() =
-      a.derived().template triangularView<UpLo_>();
-  this->m_info = internal::bunch_kaufman_in_place(
-      this->m_matrix, this->m_subdiag, this->m_pivots, this->m_workspace,
-      this->m_pivot_count);
-  this->m_isInitialized = true;
-  return *this;
-}
-} // namespace Eigen
-
-namespace proxsuite::nlp {
-using Eigen::BunchKaufman;
-}
+/// @file
+/// @author Sarah El-Kazdadi
+/// @copyright Copyright (C) 2023
+#pragma once
+
+#include "Eigen/Core"
+
+namespace Eigen {
+template <typename MatrixType_, int UpLo_ = Lower> struct BunchKaufman;
+
+namespace internal {
+template <typename MatrixType_, int UpLo_>
+struct traits<BunchKaufman<MatrixType_, UpLo_>> : traits<MatrixType_> {
+  typedef MatrixXpr XprKind;
+  typedef SolverStorage StorageKind;
+  typedef int StorageIndex;
+  enum { Flags = 0 };
+};
+
+template <typename MatrixType, typename IndicesType>
+ComputationInfo bunch_kaufman_in_place_unblocked(MatrixType &a,
+                                                 IndicesType &pivots,
+                                                 Index &pivot_count) {
+  using Scalar = typename MatrixType::Scalar;
+  using Real = typename Eigen::NumTraits<Scalar>::Real;
+  const Real alpha = (Real(1) + numext::sqrt(Real(17))) / Real(8);
+  using std::swap;
+
+  pivot_count = 0;
+
+  const Index n = a.rows();
+  if (n == 0) {
+    return Success;
+  } else if (n == 1) {
+    if (numext::abs(numext::real(a(0, 0))) == Real(0)) {
+      return NumericalIssue;
+    } else {
+      a(0, 0) = Real(1) / numext::real(a(0, 0));
+      return Success;
+    }
+  }
+
+  Index k = 0;
+  while (k < n) {
+    Index k_step = 1;
+    Real abs_akk = numext::abs(numext::real(a(k, k)));
+    Index imax = 0;
+    Real colmax = Real(0);
+
+    if (k + 1 < n) {
+      colmax = a.col(k).segment(k + 1, n - k - 1).cwiseAbs().maxCoeff(&imax);
+    }
+    imax += k + 1;
+
+    Index kp;
+    if (!(numext::isfinite)(abs_akk) || !(numext::isfinite)(colmax) ||
+        numext::maxi(abs_akk, colmax) == Real(0)) {
+      return NumericalIssue;
+    } else {
+      if (abs_akk >= colmax * alpha) {
+        kp = k;
+      } else {
+        Real rowmax = Real(0);
+        if (imax - k > 0) {
+          rowmax = a.row(imax).segment(k, imax - k).cwiseAbs().maxCoeff();
+        }
+        if (n - imax - 1 > 0) {
+          rowmax = numext::maxi(rowmax, a.col(imax)
+                                            .segment(imax + 1, n - imax - 1)
+                                            .cwiseAbs()
+                                            .maxCoeff());
+        }
+
+        if (abs_akk >= (alpha * colmax) * (colmax / rowmax)) {
+          kp = k;
+        } else if (numext::abs(numext::real(a(imax, imax))) >= alpha * rowmax) {
+          kp = imax;
+        } else {
+          kp = imax;
+          k_step = 2;
+        }
+      }
+
+      Index kk = k + k_step - 1;
+      if (kp != kk) {
+        pivot_count += 1;
+        a.col(kk)
+            .segment(kp + 1, n - kp - 1)
+            .swap(a.col(kp).segment(kp + 1, n - kp - 1));
+
+        for (Index j = kk + 1; j < kp; ++j) {
+          Scalar tmp = a(j, kk);
+          a(j, kk) = numext::conj(a(kp, j));
+          a(kp, j) = numext::conj(tmp);
+        }
+        a(kp, kk) = numext::conj(a(kp, kk));
+        swap(a(kk, kk), a(kp, kp));
+
+        if (k_step == 2) {
+          swap(a(k + 1, k), a(kp, k));
+        }
+      }
+
+      if (k_step == 1) {
+        Real d11 = Real(1) / numext::real(a(k, k));
+        a(k, k) = Scalar(d11);
+
+        auto x = a.middleRows(k + 1, n - k - 1).col(k);
+        auto trailing =
+            a.middleRows(k + 1, n - k - 1).middleCols(k + 1, n - k - 1);
+
+        for (Index j = 0; j < n - k - 1; ++j) {
+          Scalar d11xj = numext::conj(x(j)) * d11;
+          for (Index i = j; i < n - k - 1; ++i) {
+            Scalar xi = x(i);
+            trailing(i, j) -= d11xj * xi;
+          }
+          trailing(j, j) = Scalar(numext::real(trailing(j, j)));
+        }
+
+        x *= d11;
+      } else {
+        Real d21_abs = numext::abs(a(k + 1, k));
+        Real d21_inv = Real(1) / d21_abs;
+        Real d11 = d21_inv * numext::real(a(k + 1, k + 1));
+        Real d22 = d21_inv * numext::real(a(k, k));
+
+        Real t = Real(1) / ((d11 * d22) - Real(1));
+        Real d = t * d21_inv;
+        Scalar d21 = a(k + 1, k) * d21_inv;
+
+        a(k, k) = Scalar(d11 * d);
+        a(k + 1, k) = -d21 * d;
+        a(k + 1, k + 1) = Scalar(d22 * d);
+
+        for (Index j = k + 2; j < n; ++j) {
+          Scalar wk = ((a(j, k) * d11) - (a(j, k + 1) * d21)) * d;
+          Scalar wkp1 =
+              ((a(j, k + 1) * d22) - (a(j, k) * numext::conj(d21))) * d;
+
+          for (Index i = j; i < n; ++i) {
+            a(i, j) -=
+                a(i, k) * numext::conj(wk) + a(i, k + 1) * numext::conj(wkp1);
+          }
+          a(j, j) = Scalar(numext::real(a(j, j)));
+
+          a(j, k) = wk;
+          a(j, k + 1) = wkp1;
+        }
+      }
+    }
+
+    // pivots matrix store int by default
+    // Like Eigen, we assume that we will never
+    // have a matrix that will have more rows/columns
+    // than int can old
+    if (k_step == 1) {
+      pivots[k] = static_cast<int>(kp);
+    } else {
+      pivots[k] = static_cast<int>(-1 - kp);
+      pivots[k + 1] = static_cast<int>(-1 - kp);
+    }
+
+    k += k_step;
+  }
+
+  return Success;
+}
+
+template <typename MatrixType, typename WType, typename IndicesType>
+ComputationInfo
+bunch_kaufman_in_place_one_block(MatrixType &a, WType &w, IndicesType &pivots,
+                                 Index &pivot_count, Index &processed_cols) {
+  using Scalar = typename MatrixType::Scalar;
+  using Real = typename Eigen::NumTraits<Scalar>::Real;
+
+  pivot_count = 0;
+  processed_cols = 0;
+  Real alpha = (Real(1) + numext::sqrt(Real(17))) / Real(8);
+
+  Index n = a.rows();
+  if (n == 0) {
+    return Success;
+  }
+
+  Index nb = w.cols();
+  Index k = 0;
+  while (k < n && k + 1 < nb) {
+    w.col(k).segment(k, n - k) = a.col(k).segment(k, n - k);
+    {
+      auto w_row = w.row(k).segment(0, k);
+      auto w_col = w.col(k).segment(k, n - k);
+      w_col.noalias() -= a.block(k, 0, n - k, k) * w_row.transpose();
+    }
+    w(k, k) = Scalar(numext::real(w(k, k)));
+
+    Index k_step = 1;
+    Real abs_akk = numext::abs(numext::real(w(k, k)));
+    Index imax = 0;
+    Real colmax = Real(0);
+
+    if (k + 1 < n) {
+      colmax = w.col(k).segment(k + 1, n - k - 1).cwiseAbs().maxCoeff(&imax);
+    }
+    imax += k + 1;
+
+    Index kp;
+    if (!(numext::isfinite)(abs_akk) || !(numext::isfinite)(colmax) ||
+        numext::maxi(abs_akk, colmax) == Real(0)) {
+      return NumericalIssue;
+    } else {
+      if (abs_akk >= colmax * alpha) {
+        kp = k;
+      } else {
+        w.col(k + 1).segment(k, imax - k) =
+            a.row(imax).segment(k, imax - k).adjoint();
+        w.col(k + 1).segment(imax, n - imax) =
+            a.col(imax).segment(imax, n - imax);
+
+        {
+          auto w_row = w.row(imax).segment(0, k);
+          auto w_col = w.col(k + 1).segment(k, n - k);
+          w_col.noalias() -= a.block(k, 0, n - k, k) * w_row.transpose();
+        }
+        w(imax, k + 1) = Scalar(numext::real(w(imax, k + 1)));
+
+        Real rowmax = Real(0);
+        if (imax - k > 0) {
+          rowmax = w.col(k + 1).segment(k, imax - k).cwiseAbs().maxCoeff();
+        }
+        if (n - imax - 1 > 0) {
+          rowmax = numext::maxi(rowmax, w.col(k + 1)
+                                            .segment(imax + 1, n - imax - 1)
+                                            .cwiseAbs()
+                                            .maxCoeff());
+        }
+
+        if (abs_akk >= (alpha * colmax) * (colmax / rowmax)) {
+          kp = k;
+        } else if (numext::abs(numext::real(w(imax, k + 1))) >=
+                   alpha * rowmax) {
+          kp = imax;
+          w.col(k).segment(k, n - k) = w.col(k + 1).segment(k, n - k);
+        } else {
+          kp = imax;
+          k_step = 2;
+        }
+      }
+
+      Index kk = k + k_step - 1;
+      if (kp != kk) {
+        pivot_count += 1;
+
+        a(kp, kp) = a(kk, kk);
+        for (Index j = kk + 1; j < kp; ++j) {
+          a(kp, j) = numext::conj(a(j, kk));
+        }
+        a.col(kp).segment(kp + 1, n - kp - 1) =
+            a.col(kk).segment(kp + 1, n - kp - 1);
+        a.row(kk).segment(0, k).swap(a.row(kp).segment(0, k));
+        w.row(kk).segment(0, kk + 1).swap(w.row(kp).segment(0, kk + 1));
+      }
+
+      if (k_step == 1) {
+        a.col(k).segment(k, n - k) = w.col(k).segment(k, n - k);
+
+        Real d11 = Real(1) / numext::real(w(k, k));
+        a(k, k) = Scalar(d11);
+        auto x = a.middleRows(k + 1, n - k - 1).col(k);
+        x *= d11;
+        w.col(k).segment(k + 1, n - k - 1) =
+            w.col(k).segment(k + 1, n - k - 1).conjugate();
+      } else {
+        Real d21_abs = numext::abs(w(k + 1, k));
+        Real d21_inv = Real(1) / d21_abs;
+        Real d11 = d21_inv * numext::real(w(k + 1, k + 1));
+        Real d22 = d21_inv * numext::real(w(k, k));
+
+        Real t = Real(1) / ((d11 * d22) - Real(1));
+        Scalar d21 = w(k + 1, k) * d21_inv;
+        Real d = t * d21_inv;
+
+        a(k, k) = Scalar(d11 * d);
+        a(k + 1, k) = -d21 * d;
+        a(k + 1, k + 1) = Scalar(d22 * d);
+
+        for (Index j = k + 2; j < n; ++j) {
+          Scalar wk = ((w(j, k) * d11) - (w(j, k + 1) * d21)) * d;
+          Scalar wkp1 =
+              ((w(j, k + 1) * d22) - (w(j, k) * numext::conj(d21))) * d;
+
+          a(j, k) = wk;
+          a(j, k + 1) = wkp1;
+        }
+
+        w.col(k).segment(k + 1, n - k - 1) =
+            w.col(k).segment(k + 1, n - k - 1).conjugate();
+        w.col(k + 1).segment(k + 2, n - k - 2) =
+            w.col(k + 1).segment(k + 2, n - k - 2).conjugate();
+      }
+    }
+
+    // pivots matrix store int by default
+    // Like Eigen, we assume that we will never
+    // have a matrix that will have more rows/columns
+    // than int can old
+    if (k_step == 1) {
+      pivots[k] = static_cast<int>(kp);
+    } else {
+      pivots[k] = static_cast<int>(-1 - kp);
+      pivots[k + 1] = static_cast<int>(-1 - kp);
+    }
+
+    k += k_step;
+  }
+
+  auto a_left = a.bottomRows(n - k).leftCols(k);
+  auto a_right = a.bottomRows(n - k).rightCols(n - k);
+
+  a_right.template triangularView<Lower>() -=
+      a_left * w.block(k, 0, n - k, k).transpose();
+  Index j = k - 1;
+  processed_cols = k;
+
+  while (true) {
+    Index jj = j;
+    Index jp = pivots[j];
+    if (jp < 0) {
+      jp = -1 - jp;
+      j -= 1;
+    }
+
+    if (j == 0) {
+      return Success;
+    }
+    j -= 1;
+    if (jp != jj) {
+      a.row(jp).segment(0, j + 1).swap(a.row(jj).segment(0, j + 1));
+    }
+    if (j == 0) {
+      return Success;
+    }
+  }
+}
+
+template <typename MatrixType, typename VecType, typename IndicesType,
+          typename WorkspaceType>
+ComputationInfo bunch_kaufman_in_place(MatrixType &a, VecType &subdiag,
+                                       IndicesType &pivots, WorkspaceType &w,
+                                       Index &pivot_count) {
+  Index n = a.rows();
+
+  const Index blocksize = w.cols();
+
+  Index k = 0;
+  while (k < n) {
+    Index kb = 0;
+    Index k_pivot_count = 0;
+    auto a_block = a.block(k, k, n - k, n - k);
+    auto pivots_block = pivots.segment(k, n - k);
+    ComputationInfo info = InvalidInput;
+    if (blocksize != 0 && blocksize < n - k) {
+      info = internal::bunch_kaufman_in_place_one_block(
+          a_block, w, pivots_block, k_pivot_count, kb);
+    } else {
+      info = internal::bunch_kaufman_in_place_unblocked(a_block, pivots_block,
+                                                        k_pivot_count);
+      kb = n - k;
+    }
+    if (info != Success) {
+      return info;
+    }
+
+    for (Index j = k; j < k + kb; ++j) {
+      auto &p = pivots.coeffRef(j);
+      // pivots matrix store int by default
+      // Like Eigen, we assume that we will never
+      // have a matrix that will have more rows/columns
+      // than int can old
+      if (p >= 0) {
+        p += static_cast<int>(k);
+      } else {
+        p -= static_cast<int>(k);
+      }
+    }
+
+    pivot_count += k_pivot_count;
+    k += kb;
+  }
+
+  using Scalar = typename MatrixType::Scalar;
+
+  k = 0;
+  while (k < n) {
+    if (pivots[k] < 0) {
+      subdiag(k) = a(k + 1, k);
+      subdiag(k + 1) = Scalar(0);
+      a(k + 1, k) = Scalar(0);
+      k += 2;
+    } else {
+      subdiag(k) = Scalar(0);
+      k += 1;
+    }
+  }
+
+  k = 0;
+  while (k < n) {
+    Index p = pivots[k];
+    if (p < 0) {
+      p = -1 - p;
+      a.row(k + 1).segment(0, k).swap(a.row(p).segment(0, k));
+      k += 2;
+    } else {
+      a.row(k).segment(0, k).swap(a.row(p).segment(0, k));
+      k += 1;
+    }
+  }
+
+  return Success;
+}
+
+template <typename MatrixType, bool Conjugate> struct BK_Traits;
+
+template <typename MatrixType> struct BK_Traits<MatrixType, false> {
+  typedef TriangularView<const MatrixType, UnitLower> MatrixL;
+  typedef TriangularView<const typename MatrixType::AdjointReturnType,
+                         UnitUpper>
+      MatrixU;
+  static inline MatrixL getL(const MatrixType &m) { return MatrixL(m); }
+  static inline MatrixU getU(const MatrixType &m) {
+    return MatrixU(m.adjoint());
+  }
+};
+
+template <typename MatrixType> struct BK_Traits<MatrixType, true> {
+  typedef typename MatrixType::ConjugateReturnType ConjugateReturnType;
+  typedef TriangularView<const ConjugateReturnType, UnitLower> MatrixL;
+  typedef TriangularView<const typename MatrixType::TransposeReturnType,
+                         UnitUpper>
+      MatrixU;
+  static inline MatrixL getL(const MatrixType &m) {
+    return MatrixL(m.conjugate());
+  }
+  static inline MatrixU getU(const MatrixType &m) {
+    return MatrixU(m.transpose());
+  }
+};
+
+template <bool Conjugate, typename MatrixType, typename VecType,
+          typename IndicesType, typename Rhs>
+void bunch_kaufman_solve_in_place(MatrixType const &L, VecType const &subdiag,
+                                  IndicesType const &pivots, Rhs &x) {
+  Index n = L.rows();
+
+  Index k;
+
+  k = 0;
+  while (k < n) {
+    Index p = pivots(k);
+    if (p < 0) {
+      p = -1 - p;
+      x.row(k + 1).swap(x.row(p));
+      k += 2;
+    } else {
+      x.row(k).swap(x.row(p));
+      k += 1;
+    }
+  }
+
+  using Traits = BK_Traits<MatrixType, Conjugate>;
+
+  Traits::getL(L).solveInPlace(x);
+
+  k = 0;
+  while (k < n) {
+    Index p = pivots(k);
+    if (p < 0) {
+      using Scalar = typename MatrixType::Scalar;
+      using Real = typename Eigen::NumTraits<Scalar>::Real;
+
+      Scalar akp1k = subdiag(k);
+      Real ak = numext::real(L(k, k));
+      Real akp1 = numext::real(L(k + 1, k + 1));
+
+      if (Conjugate) {
+        akp1k = numext::conj(akp1k);
+      }
+
+      for (Index j = 0; j < x.cols(); ++j) {
+        Scalar xk = x(k, j);
+        Scalar xkp1 = x(k + 1, j);
+
+        x(k, j) = xk * ak + xkp1 * numext::conj(akp1k);
+        x(k + 1, j) = xkp1 * akp1 + xk * akp1k;
+      }
+
+      k += 2;
+    } else {
+      x.row(k) *= numext::real(L(k, k));
+      k += 1;
+    }
+  }
+
+  Traits::getU(L).solveInPlace(x);
+
+  k = n;
+  while (k > 0) {
+    k -= 1;
+    Index p = pivots(k);
+    if (p < 0) {
+      p = -1 - p;
+      x.row(k).swap(x.row(p));
+      k -= 1;
+    } else {
+      x.row(k).swap(x.row(p));
+    }
+  }
+}
+} // namespace internal
+
+template <typename MatrixType_, int UpLo_>
+struct BunchKaufman : SolverBase<BunchKaufman<MatrixType_, UpLo_>> {
+  enum {
+    MaxRowsAtCompileTime = MatrixType_::MaxRowsAtCompileTime,
+    MaxColsAtCompileTime = MatrixType_::MaxColsAtCompileTime,
+    UpLo = UpLo_
+  };
+  using MatrixType = MatrixType_;
+  using PlainObject = typename MatrixType::PlainObject;
+  using Base = SolverBase<BunchKaufman>;
+  static constexpr Index BlockSize = 32;
+  EIGEN_GENERIC_PUBLIC_INTERFACE(BunchKaufman)
+  using VecType = Matrix<Scalar, RowsAtCompileTime, 1, Eigen::DontAlign,
+                         MaxRowsAtCompileTime>;
+  friend class SolverBase<BunchKaufman>;
+
+  using IndicesType =
+      typename Transpositions<RowsAtCompileTime,
+                              MaxRowsAtCompileTime>::IndicesType;
+  using PermutationType =
+      PermutationMatrix<RowsAtCompileTime, MaxRowsAtCompileTime>;
+
+  BunchKaufman()
+      : m_matrix(), m_subdiag(), m_pivot_count(0), m_pivots(),
+        m_isInitialized(false), m_info(ComputationInfo::InvalidInput),
+        m_blocksize(), m_workspace() {}
+  explicit BunchKaufman(Index size)
+      : m_matrix(size, size), m_subdiag(size), m_pivot_count(0), m_pivots(size),
+        m_isInitialized(false), m_info(ComputationInfo::InvalidInput),
+        m_blocksize(size <= BlockSize ? 0 : BlockSize),
+        m_workspace(size, m_blocksize) {}
+
+  template <typename InputType>
+  explicit BunchKaufman(const EigenBase<InputType> &matrix)
+      : m_matrix(matrix.rows(), matrix.cols()), m_subdiag(matrix.rows()),
+        m_pivot_count(0), m_pivots(matrix.rows()), m_isInitialized(false),
+        m_info(ComputationInfo::InvalidInput),
+        m_blocksize(matrix.rows() <= BlockSize ? 0 : BlockSize),
+        m_workspace(matrix.rows(), m_blocksize) {
+    this->compute(matrix.derived());
+  }
+
+  // EIGEN_DEVICE_FUNC inline EIGEN_CONSTEXPR Index rows() const EIGEN_NOEXCEPT
+  // { return m_matrix.rows(); }
+  EIGEN_DEVICE_FUNC inline Index rows() const EIGEN_NOEXCEPT {
+    return m_matrix.rows();
+  }
+  // EIGEN_DEVICE_FUNC inline EIGEN_CONSTEXPR Index cols() const EIGEN_NOEXCEPT
+  // { return m_matrix.cols(); }
+  EIGEN_DEVICE_FUNC inline Index cols() const EIGEN_NOEXCEPT {
+    return m_matrix.cols();
+  }
+
+  inline const MatrixType &matrixLDLT() const { return m_matrix; }
+
+  inline const IndicesType &pivots() const { return m_pivots; }
+
+  inline const VecType &subdiag() const { return m_subdiag; }
+
+  template <typename InputType>
+  BunchKaufman &compute(const EigenBase<InputType> &matrix);
+
+  ComputationInfo info() const { return m_info; }
+
+#ifdef EIGEN_PARSED_BY_DOXYGEN
+  template <typename Rhs>
+  inline const Solve<LDLT, Rhs> solve(const MatrixBase<Rhs> &b) const;
+#endif
+
+#ifndef EIGEN_PARSED_BY_DOXYGEN
+  template <typename RhsType, typename DstType>
+  void _solve_impl(const RhsType &rhs, DstType &dst) const;
+
+  template <bool Conjugate, typename RhsType, typename DstType>
+  void _solve_impl_transposed(const RhsType &rhs, DstType &dst) const;
+
+  template <typename RhsType>
+  bool solveInPlace(Eigen::MatrixBase<RhsType> &bAndX) const;
+#endif
+
+private:
+  MatrixType m_matrix;
+  VecType m_subdiag;
+  Index m_pivot_count;
+  IndicesType m_pivots;
+  bool m_isInitialized;
+  ComputationInfo m_info;
+  Index m_blocksize;
+  PlainObject m_workspace;
+};
+
+#ifndef EIGEN_PARSED_BY_DOXYGEN
+template <typename MatrixType_, int UpLo_>
+template <typename RhsType, typename DstType>
+void BunchKaufman<MatrixType_, UpLo_>::_solve_impl(const RhsType &rhs,
+                                                   DstType &dst) const {
+  dst = rhs;
+  internal::bunch_kaufman_solve_in_place<false>(this->m_matrix, this->m_subdiag,
+                                                this->m_pivots, dst);
+}
+
+template <typename MatrixType_, int UpLo_>
+template <bool Conjugate, typename RhsType, typename DstType>
+void BunchKaufman<MatrixType_, UpLo_>::_solve_impl_transposed(
+    const RhsType &rhs, DstType &dst) const {
+  dst = rhs;
+  internal::bunch_kaufman_solve_in_place<!Conjugate>(
+      this->m_matrix, this->m_subdiag, this->m_pivots, dst);
+}
+
+template <typename MatrixType_, int UpLo_>
+template <typename RhsType>
+bool BunchKaufman<MatrixType_, UpLo_>::solveInPlace(
+    Eigen::MatrixBase<RhsType> &bAndX) const {
+  bAndX = this->solve(bAndX);
+
+  return true;
+}
+#endif
+
+template <typename MatrixType_, int UpLo_>
+template <typename InputType>
+BunchKaufman<MatrixType_, UpLo_> &
+BunchKaufman<MatrixType_, UpLo_>::compute(const EigenBase<InputType> &a) {
+  eigen_assert(a.rows() == a.cols());
+  Index n = a.rows();
+  this->m_matrix.resize(n, n);
+  this->m_subdiag.resize(n);
+  this->m_pivots.resize(n);
+
+  this->m_matrix.setZero();
+  this->m_subdiag.setZero();
+  this->m_pivots.setZero();
+  this->m_blocksize = n <= BlockSize ? 0 : BlockSize;
+  this->m_workspace.setZero(n, this->m_blocksize);
+
+  this->m_matrix.template triangularView<Lower>() =
+      a.derived().template triangularView<UpLo_>();
+  this->m_info = internal::bunch_kaufman_in_place(
+      this->m_matrix, this->m_subdiag, this->m_pivots, this->m_workspace,
+      this->m_pivot_count);
+  this->m_isInitialized = true;
+  return *this;
+}
+} // namespace Eigen
+
+namespace proxsuite::nlp {
+using Eigen::BunchKaufman;
+}
-- 
2.43.0


From 5ef6b068eae38dfd31465918560431a790e57f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:48 +0000
Subject: [PATCH 33/35] fix: products of a diagonal block and a triangular one

---
 include/proxsuite-nlp/linalg/gemmt.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/gemmt.hpp b/include/proxsuite-nlp/linalg/gemmt.hpp
index a1b93f3..c7ed72a 100644
--- a/include/proxsuite-nlp/linalg/gemmt.hpp
+++ b/include/proxsuite-nlp/linalg/gemmt.hpp
@@ -41,8 +41,9 @@ template <typename Scalar> struct GemmT<Scalar, Diag, TriL> {
     isize n = dst.cols();
 
     for (isize j = 0; j < n; ++j) {
-      dst.col(j).head(j + 1) += alpha * lhs.diagonal().cwiseProduct(
-                                            rhs.transpose().col(j).head(j + 1));
+      dst.col(j).head(j + 1) +=
+          alpha * lhs.diagonal().head(j + 1).cwiseProduct(
+                      rhs.transpose().col(j).head(j + 1));
     }
   }
 };
@@ -59,8 +60,9 @@ template <typename Scalar> struct GemmT<Scalar, Diag, TriU> {
     isize n = dst.cols();
 
     for (isize j = 0; j < n; ++j) {
-      dst.col(j).tail(m - j) += alpha * lhs.diagonal().cwiseProduct(
-                                            rhs.transpose().col(j).tail(m - j));
+      dst.col(j).tail(m - j) +=
+          alpha * lhs.diagonal().tail(m - j).cwiseProduct(
+                      rhs.transpose().col(j).tail(m - j));
     }
   }
 };
-- 
2.43.0


From 36ed02d7b498682cffa2e40f3b55dcd217dedcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:04 +0000
Subject: [PATCH 34/35] fix: a point is on a product of spaces when every piece
 is on its space

---
 include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
index 94e1791..f345ea1 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
@@ -34,7 +34,7 @@ bool CartesianProductTpl<Scalar>::isNormalized(const ConstVectorRef &x) const {
   bool res = true;
   auto xs = this->split(x);
   for (std::size_t i = 0; i < numComponents(); i++) {
-    res |= m_components[i]->isNormalized(xs[i]);
+    res &= m_components[i]->isNormalized(xs[i]);
   }
   return res;
 }
-- 
2.43.0


From e4bfd2a958e34ad23fcc2120f9d77b455b5ea36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:52 +0000
Subject: [PATCH 35/35] fix: linearise the l1 penalty at its primal-dual
 parameter in the KKT matrix

---
 include/proxsuite-nlp/prox-solver.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 9b080c7..6256191 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -533,7 +533,9 @@ void ProxNLPSolverTpl<Scalar>::assembleKktMatrix(Workspace &workspace) {
       int nr = problem_->getConstraintDim(i);
       auto d_sub = lower_right_block.diagonal().segment(idx, nr);
       VectorXs d_sub2(d_sub);
-      // apply normal cone jacobian op
+      // apply normal cone jacobian op, with the same prox parameter as the
+      // projected Jacobians
+      ScopedProxParameterTpl<Scalar> scope(cstr_set, pdal_beta_ * mu_);
       cstr_set.applyNormalConeProjectionJacobian(workspace.shift_cstr_pdal[i],
                                                  d_sub2);
       d_sub = 0.5 * (d_sub + d_sub2);
-- 
2.43.0

