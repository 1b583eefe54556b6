From 950d88b3adbdf6a69217c9d29a1dd55e5dc80def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 01/15] fix: require nonnegative inequality duals in a primal
 infeasibility certificate

CheckFeasibility accepted directions with negative inequality duals, for
which Farkas' lemma says nothing, so feasible strongly convex problems
could be reported as primal infeasible (e.g. min 1/2 z^2 - 4z s.t. 0*z <= 3
warm started with v = 7).
---
 fbstab/components/full_feasibility.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fbstab/components/full_feasibility.cc b/fbstab/components/full_feasibility.cc
index 33a766a..7be9de9 100644
--- a/fbstab/components/full_feasibility.cc
+++ b/fbstab/components/full_feasibility.cc
@@ -54,7 +54,8 @@ FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
   }
 
   // The conditions for primal infeasibility are:
-  // v'*b + l'*h < 0 and |A'*v + G'*l| \leq tol * |(v,l)|
+  // v'*b + l'*h < 0 and |A'*v + G'*l| \leq tol * |(v,l)| and v >= 0, where
+  // the sign condition is also enforced to within tol * |(v,l)|.
 
   // Compute p1 = infnorm(G'*l + A'*v).
   tz_.fill(0.0);
@@ -72,7 +73,8 @@ FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
   const double u = std::max(x.v().lpNorm<Eigen::Infinity>(),
                             x.l().lpNorm<Eigen::Infinity>());
   bool primal_feasible = true;
-  if ((p1 <= tol * u) && (p2 < 0)) {
+  const double p3 = x.v().minCoeff();
+  if ((p1 <= tol * u) && (p2 < 0) && (p3 >= -tol * u)) {
     primal_feasible = false;
   }
 
-- 
2.43.0


From efec9d6ea0211b99824d39718e631fcee587c21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 02/15] fix: MpcData::gemvGT dropped the control block for
 scalings other than +-1

---
 fbstab/components/mpc_data.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fbstab/components/mpc_data.cc b/fbstab/components/mpc_data.cc
index 0bed8c5..9a2face 100644
--- a/fbstab/components/mpc_data.cc
+++ b/fbstab/components/mpc_data.cc
@@ -191,6 +191,7 @@ void MpcData::gemvGT(const Eigen::VectorXd& x, double a, double b,
       ui.noalias() -= B.transpose() * vp1;
     } else {
       xi.noalias() += a * A.transpose().lazyProduct(vp1);
+      ui.noalias() += a * B.transpose().lazyProduct(vp1);
     }
   }
   // The i = N step of the recursion.
-- 
2.43.0


From 0deef86bceabcb79a2ff254f275d2ecec9462aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 03/15] fix: reject wrongly sized vectors instead of running
 into Eigen assertions

MpcData accepted sequences q, r, c, d with more than one column and
FBstabDense::Solve did not check the size of the constraint margin, which it
writes to (and which cannot be resized when it maps user memory).
---
 fbstab/components/mpc_data.cc | 8 ++++----
 fbstab/fbstab_dense.h         | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/fbstab/components/mpc_data.cc b/fbstab/components/mpc_data.cc
index 9a2face..4b24455 100644
--- a/fbstab/components/mpc_data.cc
+++ b/fbstab/components/mpc_data.cc
@@ -321,7 +321,7 @@ void MpcData::ValidateInputs() const {
   if (S_.cols() != nx) {
     throw std::runtime_error("Size mismatch in S input to MpcData.");
   }
-  if (q_.rows() != nx) {
+  if (q_.rows() != nx || q_.cols() != 1) {
     throw std::runtime_error("Size mismatch in q input to MpcData.");
   }
   if (E_.cols() != nx) {
@@ -333,7 +333,7 @@ void MpcData::ValidateInputs() const {
   if (B_.rows() != nx) {
     throw std::runtime_error("Size mismatch in B input to MpcData.");
   }
-  if (c_.rows() != nx) {
+  if (c_.rows() != nx || c_.cols() != 1) {
     throw std::runtime_error("Size mismatch in c input to MpcData.");
   }
 
@@ -344,7 +344,7 @@ void MpcData::ValidateInputs() const {
   if (S_.rows() != nu) {
     throw std::runtime_error("Size mismatch in S input to MpcData.");
   }
-  if (r_.rows() != nu) {
+  if (r_.rows() != nu || r_.cols() != 1) {
     throw std::runtime_error("Size mismatch in r input to MpcData.");
   }
   if (L_.cols() != nu) {
@@ -358,7 +358,7 @@ void MpcData::ValidateInputs() const {
   if (L_.rows() != nc) {
     throw std::runtime_error("Size mismatch in L input to MpcData.");
   }
-  if (d_.rows() != nc) {
+  if (d_.rows() != nc || d_.cols() != 1) {
     throw std::runtime_error("Size mismatch in d input to MpcData.");
   }
 }
diff --git a/fbstab/fbstab_dense.h b/fbstab/fbstab_dense.h
index 7e309c5..3c36fd8 100644
--- a/fbstab/fbstab_dense.h
+++ b/fbstab/fbstab_dense.h
@@ -172,7 +172,8 @@ class FBstabDense {
       throw std::runtime_error(
           "In FBstabDense::Solve: mismatch between *this and data dimensions.");
     }
-    if (nz_ != x.z.size() || x.l.size() != nl_ || nv_ != x.v.size()) {
+    if (nz_ != x.z.size() || x.l.size() != nl_ || nv_ != x.v.size() ||
+        nv_ != x.y.size()) {
       throw std::runtime_error(
           "In FBstabDense::Solve: mismatch between *this and initial guess "
           "dimensions.");
-- 
2.43.0


From 33323ca09b4e18538dc87c2fcb66cf9195f52cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 04/15] fix: accepted tolerance options could make Solve throw

The subproblem tolerance was projected onto [inner_tol_min, Ek] and
[inner_tol_min, inner_tol_max]; either interval can be empty with options
that ValidateOptions accepts, in which case tools::saturate throws.
---
 fbstab/fbstab_algorithm-impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index bc5ce42..0497ee8 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -23,6 +23,7 @@ inline void AlgorithmParameters::ValidateOptions() {
 
   inner_tol_max = tools::saturate(inner_tol_max, 1e-8, 1e2);
   inner_tol_min = tools::saturate(inner_tol_min, 1e-14, 1e-2);
+  inner_tol_max = std::max(inner_tol_max, inner_tol_min);
 
   max_newton_iters = std::max(max_newton_iters, 1);
   max_prox_iters = std::max(max_prox_iters, 1);
@@ -176,8 +177,8 @@ SolverOut FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::Solve(
     // TODO(dliaomcp@umich.edu) Implement adaptive rule for decreasing sigma.
 
     // Update subproblem tolerance.
-    inner_tol =
-        tools::saturate(inner_tol * opts_.delta, opts_.inner_tol_min, Ek);
+    inner_tol = std::max(std::min(inner_tol * opts_.delta, Ek),
+                         opts_.inner_tol_min);
 
     // Solve the proximal subproblem.
     xi_->Copy(*xk_);
-- 
2.43.0


From ffb557af5199fbfaecd6f0a24b28d19ea9e052cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 05/15] fix: report the residual of the point that is returned

SolveProximalSubproblem left rk_ at the residual of the second to last inner
iterate when the inner loop ran out of iterations and never accounted for the
projection of the duals. After a proximal iteration timeout the reported
residual was therefore not the residual of the returned point, and the choice
between the inner and outer iterate after a Newton iteration timeout compared
the wrong residual.
---
 fbstab/fbstab_algorithm-impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index 0497ee8..91d3ba4 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -301,7 +301,9 @@ double FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::
   // Make duals non-negative.
   x->ProjectDuals();
 
-  return Eo;
+  // The last step and the projection have moved x since rk_ was computed.
+  rk_->PenalizedNaturalResidual(*x);
+  return rk_->Norm();
 }
 
 // Helper functions *************************************
-- 
2.43.0


From e171d36702892893297d02c222e8bd5972622cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 06/15] fix: FullResidual::Fill left the cached norms unchanged

A reused solver printed the last inner residual of the previous solve in the
first line of the iteration log.
---
 fbstab/components/full_residual.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fbstab/components/full_residual.cc b/fbstab/components/full_residual.cc
index 6c88ca5..de9a429 100644
--- a/fbstab/components/full_residual.cc
+++ b/fbstab/components/full_residual.cc
@@ -29,6 +29,9 @@ void FullResidual::Fill(double a) {
   z_.setConstant(a);
   l_.setConstant(a);
   v_.setConstant(a);
+  znorm_ = z_.norm();
+  lnorm_ = l_.norm();
+  vnorm_ = v_.norm();
 }
 
 void FullResidual::Negate() {
-- 
2.43.0


From 82079d2743b3d7eb3e9ac23da1beabfa07eb9ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 07/15] fix: DenseData products with b = 0 kept NaN from the
 old output

A NaN left in the feasibility checker's workspace by one solve changed the
verdicts of later solves on the same solver object.
---
 fbstab/components/dense_data.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/fbstab/components/dense_data.cc b/fbstab/components/dense_data.cc
index 4dd3a1c..fad3a0b 100644
--- a/fbstab/components/dense_data.cc
+++ b/fbstab/components/dense_data.cc
@@ -9,29 +9,41 @@ namespace fbstab {
 using MatrixXd = Eigen::MatrixXd;
 using VectorXd = Eigen::VectorXd;
 
+namespace {
+// y <- a*M*x + b*y. The old contents of y are not read if b = 0.
+template <class Matrix>
+void gemv(const Matrix &M, const VectorXd &x, double a, double b, VectorXd *y) {
+  if (b == 0.0) {
+    *y = a * M * x;
+  } else {
+    *y = a * M * x + b * (*y);
+  }
+}
+}  // namespace
+
 void DenseData::gemvH(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * H_ * x + b * (*y);
+  gemv(H_, x, a, b, y);
 }
 
 void DenseData::gemvG(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * G_ * x + b * (*y);
+  gemv(G_, x, a, b, y);
 }
 
 void DenseData::gemvGT(const Eigen::VectorXd &x, double a, double b,
                        Eigen::VectorXd *y) const {
-  *y = a * G_.transpose() * x + b * (*y);
+  gemv(G_.transpose(), x, a, b, y);
 }
 
 void DenseData::gemvA(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * A_ * x + b * (*y);
+  gemv(A_, x, a, b, y);
 }
 
 void DenseData::gemvAT(const Eigen::VectorXd &x, double a, double b,
                        Eigen::VectorXd *y) const {
-  *y = a * A_.transpose() * x + b * (*y);
+  gemv(A_.transpose(), x, a, b, y);
 }
 
 void DenseData::axpyf(double a, Eigen::VectorXd *y) const { *y += a * f_; }
-- 
2.43.0


From 04759abdfcf869b52077f83cbb61afc9f56ab2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 08/15] fix: a NaN in the factorization went unnoticed and
 ended in SUCCESS

DenseCholeskySolver::Initialize returned true although D contained NaN, and
solving with it gives a zero step, which Solve took for convergence.
---
 fbstab/components/dense_cholesky_solver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbstab/components/dense_cholesky_solver.cc b/fbstab/components/dense_cholesky_solver.cc
index 3e6bdda..ec22977 100644
--- a/fbstab/components/dense_cholesky_solver.cc
+++ b/fbstab/components/dense_cholesky_solver.cc
@@ -71,7 +71,8 @@ bool DenseCholeskySolver::Initialize(const FullVariable& x,
   // Factor K = LDL'
   ldlt_.compute(K_);
   Eigen::ComputationInfo status = ldlt_.info();
-  if (status != Eigen::Success) {
+  // LDLT doesn't report NaNs, and its solve treats a NaN pivot as zero.
+  if (status != Eigen::Success || !ldlt_.vectorD().allFinite()) {
     return false;
   } else {
     return true;
-- 
2.43.0


From 41b7bf6b0e275bd35676b75a747c13b5f71da654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:29 +0000
Subject: [PATCH 09/15] fix: apply the stall test only once a proximal step has
 been taken

dx_ is filled with ones before the first iteration, so a stall_tol of at least
its norm reported SUCCESS at an arbitrary initial guess.
---
 fbstab/fbstab_algorithm-impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index 91d3ba4..de00d59 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -159,10 +159,10 @@ SolverOut FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::Solve(
   for (int k = 0; k < opts_.max_prox_iters; k++) {
     // The solver stops if:
     // a) ||rk|| <= abs_tol + rel_tol*(1 + ||w||)
-    // b) ||x(k) - x(k-1)|| <= stall_tol
+    // b) ||x(k) - x(k-1)|| <= stall_tol, once a step has been taken
     rk_->PenalizedNaturalResidual(*xk_);
     Ek = rk_->Norm();
-    if (Ek <= combo_tol_ || dx_->Norm() <= opts_.stall_tol) {
+    if (Ek <= combo_tol_ || (k > 0 && dx_->Norm() <= opts_.stall_tol)) {
       PrintIterLine(prox_iters_, newton_iters_, *rk_, *ri_, inner_tol, os);
       SolverOut output = PrepareOutput(ExitFlag::SUCCESS, prox_iters_,
                                        newton_iters_, *rk_, start_time, E0, os);
-- 
2.43.0


From 26ccc803ebe6ae8238569aa11d48d5d684136aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 10/15] fix: RiccatiLinearSolver refuses null and wrongly sized
 arguments as documented

---
 fbstab/components/riccati_linear_solver.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fbstab/components/riccati_linear_solver.cc b/fbstab/components/riccati_linear_solver.cc
index 8211cab..220170c 100644
--- a/fbstab/components/riccati_linear_solver.cc
+++ b/fbstab/components/riccati_linear_solver.cc
@@ -86,7 +86,10 @@ bool RiccatiLinearSolver::Initialize(const FullVariable& x,
         "In RiccatiLinearSolver::Initialize: sigma must be positive.");
   }
   NullDataCheck();
-  // TODO: Add size check with the linear solver as well!
+  if (xbar.nz_ != nz_ || xbar.nl_ != nl_ || xbar.nv_ != nv_) {
+    throw std::runtime_error(
+        "In RiccatiLinearSolver::Initialize: inputs must match object size.");
+  }
 
   Eigen::Vector2d temp;
   for (int i = 0; i < nv_; i++) {
@@ -210,12 +213,19 @@ bool RiccatiLinearSolver::Initialize(const FullVariable& x,
 }
 
 bool RiccatiLinearSolver::Solve(const FullResidual& r, FullVariable* dx) const {
+  if (dx == nullptr) {
+    throw std::runtime_error(
+        "In RiccatiLinearSolver::Solve: dx cannot be null.");
+  }
   if (!r.SameSize(*dx)) {
     throw std::runtime_error(
         "In RiccatiLinearSolver::Solve: r and dx size mismatch.");
   }
   NullDataCheck();
-  // TODO: Add size check against the *this
+  if (dx->nz_ != nz_ || dx->nl_ != nl_ || dx->nv_ != nv_) {
+    throw std::runtime_error(
+        "In RiccatiLinearSolver::Solve: inputs must match object size.");
+  }
 
   // Compute the post-elimination residual,
   // r1 = rz - A'*(rv./mus) and r2 = -rl.
-- 
2.43.0


From 26ec2897b436f61687a5f31211353589d246ff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 11/15] fix: DenseCholeskySolver checks the equality
 constraints' size and, in Solve, that data is linked

---
 fbstab/components/dense_cholesky_solver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbstab/components/dense_cholesky_solver.cc b/fbstab/components/dense_cholesky_solver.cc
index ec22977..39d18aa 100644
--- a/fbstab/components/dense_cholesky_solver.cc
+++ b/fbstab/components/dense_cholesky_solver.cc
@@ -36,7 +36,7 @@ bool DenseCholeskySolver::Initialize(const FullVariable& x,
     throw std::runtime_error(
         "In DenseCholeskySolver::Factor: inputs must be the same size");
   }
-  if (xbar.nz_ != nz_ || xbar.nv_ != nv_) {
+  if (xbar.nz_ != nz_ || xbar.nv_ != nv_ || xbar.nl_ != nl_) {
     throw std::runtime_error(
         "In DenseCholeskySolver::Factor: inputs must match object size.");
   }
@@ -93,6 +93,7 @@ bool DenseCholeskySolver::Solve(const FullResidual& r, FullVariable* x) const {
     throw std::runtime_error(
         "In DenseCholeskySolver::Factor: inputs must match object size.");
   }
+  NullDataCheck();
   const auto& A = data_->A_;
   const auto& b = data_->b_;
 
-- 
2.43.0


From 23cb00f7b60936f3f74fbd8e48a82a890c474783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 12/15] fix: FullResidual::InnerResidual checks sigma and the
 sizes of its arguments as documented

---
 fbstab/components/full_residual.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fbstab/components/full_residual.cc b/fbstab/components/full_residual.cc
index de9a429..30f9401 100644
--- a/fbstab/components/full_residual.cc
+++ b/fbstab/components/full_residual.cc
@@ -52,6 +52,14 @@ double FullResidual::Merit() const {
 void FullResidual::InnerResidual(const FullVariable& x,
                                  const FullVariable& xbar, double sigma) {
   NullDataCheck();
+  if (!x.SameSize(xbar)) {
+    throw std::runtime_error(
+        "In FullResidual::InnerResidual: x and xbar are not the same size.");
+  }
+  if (sigma <= 0) {
+    throw std::runtime_error(
+        "In FullResidual::InnerResidual: sigma must be positive.");
+  }
   // r.z = H*z + f + G'*l + A'*v + sigma*(z-zbar)
   z_.setConstant(0.0);
   data_->axpyf(1.0, &z_);
-- 
2.43.0


From f6c930d5c428f3ab393eba5cda7df1232ab95659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 13/15] fix: FullFeasibility::CheckFeasibility checks the size
 of its argument as documented

---
 fbstab/components/full_feasibility.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fbstab/components/full_feasibility.cc b/fbstab/components/full_feasibility.cc
index 7be9de9..c832e60 100644
--- a/fbstab/components/full_feasibility.cc
+++ b/fbstab/components/full_feasibility.cc
@@ -25,6 +25,11 @@ FullFeasibility::FullFeasibility(int nz, int nl, int nv) {
 FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
     const FullVariable& x, double tol) {
   NullDataCheck();
+  if (x.z().size() != nz_ || x.l().size() != nl_ || x.v().size() != nv_) {
+    throw std::runtime_error(
+        "In FullFeasibility::CheckFeasibility: x and *this must be the same "
+        "size.");
+  }
 
   // The conditions for dual-infeasibility are:
   // max(Az) <= 0 and f'*z < 0 and |Hz| <= tol * |z| and |Gz| <= tol*|z|
-- 
2.43.0


From 35f322484347df4747bdccb58362f500c1431de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:20 +0000
Subject: [PATCH 14/15] fix: DenseData throws on null inputs as documented
 instead of dereferencing them

---
 fbstab/components/dense_data.h | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/fbstab/components/dense_data.h b/fbstab/components/dense_data.h
index fd6451f..7d16a3d 100644
--- a/fbstab/components/dense_data.h
+++ b/fbstab/components/dense_data.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <Eigen/Dense>
+#include <stdexcept>
 
 #include "fbstab/components/abstract_components.h"
 #include "tools/copyable_macros.h"
@@ -44,12 +45,12 @@ class DenseData : public Data {
   template <class Matrix, class Vector>
   DenseData(const Matrix* H, const Vector* f, const Matrix* G, const Vector* h,
             const Matrix* A, const Vector* b)
-      : H_(H->data(), H->rows(), H->cols()),
-        G_(G->data(), G->rows(), G->cols()),
-        A_(A->data(), A->rows(), A->cols()),
-        f_(f->data(), f->size()),
-        h_(h->data(), h->size()),
-        b_(b->data(), b->size()) {
+      : H_(MatrixView(H)),
+        G_(MatrixView(G)),
+        A_(MatrixView(A)),
+        f_(VectorView(f)),
+        h_(VectorView(h)),
+        b_(VectorView(b)) {
     if (H->rows() != H->cols() || H->rows() != f->size()) {
       throw std::runtime_error(
           "In DenseData::DenseData: H must be square and the same size as f");
@@ -109,6 +110,23 @@ class DenseData : public Data {
   int nv() const { return nv_; }
 
  private:
+  // These return views of the inputs and throw a runtime_error if they're null.
+  template <class Matrix>
+  static Eigen::Map<const Eigen::MatrixXd> MatrixView(const Matrix* M) {
+    NullInputCheck(M);
+    return Eigen::Map<const Eigen::MatrixXd>(M->data(), M->rows(), M->cols());
+  }
+  template <class Vector>
+  static Eigen::Map<const Eigen::VectorXd> VectorView(const Vector* v) {
+    NullInputCheck(v);
+    return Eigen::Map<const Eigen::VectorXd>(v->data(), v->size());
+  }
+  static void NullInputCheck(const void* p) {
+    if (p == nullptr) {
+      throw std::runtime_error("In DenseData::DenseData: an input is null.");
+    }
+  }
+
   int nz_ = 0;  // Number of decision variables.
   int nl_ = 0;  // Number of equality constraints
   int nv_ = 0;  // Number of inequality constraints.
-- 
2.43.0


From c2f1f36529871bd6a4f606d74ce7d17e44664554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 15/15] fix: DenseCholeskySolver allocated with negative sizes
 before checking them

---
 fbstab/components/dense_cholesky_solver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbstab/components/dense_cholesky_solver.cc b/fbstab/components/dense_cholesky_solver.cc
index 39d18aa..8f361e2 100644
--- a/fbstab/components/dense_cholesky_solver.cc
+++ b/fbstab/components/dense_cholesky_solver.cc
@@ -1,6 +1,7 @@
 #include "fbstab/components/dense_cholesky_solver.h"
 
 #include <Eigen/Dense>
+#include <algorithm>
 #include <cmath>
 
 #include "fbstab/components/dense_data.h"
@@ -10,7 +11,7 @@
 namespace fbstab {
 
 DenseCholeskySolver::DenseCholeskySolver(int nz, int nl, int nv)
-    : ldlt_(nz + nl) {
+    : ldlt_(std::max(nz + nl, 0)) {
   if (nz <= 0 || nv <= 0 || nl < 0) {
     throw std::runtime_error(
         "In DenseCholeskySolver: nz and nv must be > 0 and nl >= 0");
-- 
2.43.0

