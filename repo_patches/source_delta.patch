From 265184545312da71cd40aac044dc04103c91c04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:18 +0000
Subject: [PATCH 01/23] fix: Sobolev norm weighs every derivative term by its
 own weight only

Each weight also multiplied the terms accumulated before it.
---
 src/FunctionalAnalysis/Sobolev.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/FunctionalAnalysis/Sobolev.cpp b/src/FunctionalAnalysis/Sobolev.cpp
index 4fd654c..87254d5 100644
--- a/src/FunctionalAnalysis/Sobolev.cpp
+++ b/src/FunctionalAnalysis/Sobolev.cpp
@@ -50,8 +50,9 @@ void SobolevNorm::deriv_wrt_interval_len(
     // initialize the matrix buffers and compute the de matrix values
     matrix_.setZero();
     for (std::pair<std::size_t, double> w : weights_) {
-      basis_->add_derivative_matrix_deriv_wrt_tau(tau, w.first, matrix_);
-      matrix_ *= w.second;
+      matrix_2_.setZero();
+      basis_->add_derivative_matrix_deriv_wrt_tau(tau, w.first, matrix_2_);
+      matrix_ += w.second * matrix_2_;
     }
     // compute y^T dQdtau_i y
     for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
@@ -79,8 +80,9 @@ double SobolevNorm::inner_prod(
     matrix_.setZero();
     tau = _interval_lengths(interval_coor);
     for (std::pair<std::size_t, double> w : weights_) {
-      basis_->add_derivative_matrix(tau, w.first, matrix_);
-      matrix_ *= w.second;
+      matrix_2_.setZero();
+      basis_->add_derivative_matrix(tau, w.first, matrix_2_);
+      matrix_ += w.second * matrix_2_;
     }
     for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
       const Eigen::Ref<const Eigen::VectorXd> v1 = get_coefficient_segment(
-- 
2.43.0


From 1e9d8061778969262c4f00236558190fad669a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:18 +0000
Subject: [PATCH 02/23] fix: basis0101 derivative matrix of degree three and
 higher

Squaring repeatedly yields the matrix of degree 2^(deg-1), not deg.
---
 src/Basis/Basis0101.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Basis/Basis0101.cpp b/src/Basis/Basis0101.cpp
index fe4bd16..ade0823 100644
--- a/src/Basis/Basis0101.cpp
+++ b/src/Basis/Basis0101.cpp
@@ -169,8 +169,9 @@ Eigen::MatrixXd Basis0101::derivative_matrix_impl(std::size_t _deg) const {
 
   Q *= tauk;
 
+  const Eigen::MatrixXd Q1(Q);
   for (std::size_t i = 2; i <= _deg; i++) {
-    Q *= Q;
+    Q *= Q1;
   }
 
   return Q;
-- 
2.43.0


From e648a03a437a823c1a9e668fc55485b9ebefac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:18 +0000
Subject: [PATCH 03/23] fix: continuity matrix of derivatives for any basis

The first and last rows of the derivative block are the boundary derivatives
only for a Lagrange basis with nodes at -1 and 1.
---
 src/Basis/Basis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Basis/Basis.cpp b/src/Basis/Basis.cpp
index 5d317fa..42ab339 100644
--- a/src/Basis/Basis.cpp
+++ b/src/Basis/Basis.cpp
@@ -67,8 +67,8 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
 
     for (std::size_t der = 1; der <= _deriv_order; der++) {
       const Eigen::MatrixXd& dblock = get_derivative_matrix_block(der);
-      left_buffer.row(der) = dblock.row(0);
-      right_buffer.row(der) = dblock.bottomRows(1);
+      left_buffer.row(der) = left_buffer.row(0) * dblock;
+      right_buffer.row(der) = right_buffer.row(0) * dblock;
     }
 
     std::size_t i0, j0;
-- 
2.43.0


From 34f3d3d9ad39c35bb7fe9ae4f4ed4d0587cadece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:18 +0000
Subject: [PATCH 04/23] fix: change_interpolation_points looks for a match in
 every row

After one new point that matches an old one all later rows were left zero.
---
 src/Basis/BasisLagrange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Basis/BasisLagrange.cpp b/src/Basis/BasisLagrange.cpp
index 7c5e3d3..691926f 100644
--- a/src/Basis/BasisLagrange.cpp
+++ b/src/Basis/BasisLagrange.cpp
@@ -260,12 +260,12 @@ Eigen::MatrixXd BasisLagrange::change_interpolation_points(
   std::size_t book_m = _new_points.size();
   std::size_t book_n = _old_points.size();
   double t_book, s_book;
-  bool book_row_has_match = false;
 
   Eigen::MatrixXd result(book_m, book_n);
   Eigen::VectorXd bw = barycentric_weights(_old_points);
 
   for (std::size_t k = 0; k < book_m; k++) {
+    bool book_row_has_match = false;
     for (std::size_t j = 0; j < book_n; j++) {
       result(k, j) = 0.0;
       if (almost_equal(_new_points(k), _old_points(j), 1.0e-9)) {
-- 
2.43.0


From f5eb8a93816ab765f70f839ab2534be2718eb0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:52 +0000
Subject: [PATCH 05/23] fix: Gauss-Lobatto points over intervals of different
 lengths

The left end of an interval is the sum of the previous lengths, not its index
times its own length.
---
 src/Collocation/GaussLobattoPointsWeights.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Collocation/GaussLobattoPointsWeights.cpp b/src/Collocation/GaussLobattoPointsWeights.cpp
index 6cca8b7..03e2f1c 100644
--- a/src/Collocation/GaussLobattoPointsWeights.cpp
+++ b/src/Collocation/GaussLobattoPointsWeights.cpp
@@ -184,16 +184,16 @@ legendre_gauss_lobatto_points(double _left_bound, std::size_t _nglp,
 
   Eigen::VectorXd glp = legendre_gauss_lobatto_points(_nglp);
 
-  double left_bound = _left_bound;
+  double local_left_bound = _left_bound;
 
   Eigen::VectorXd result(_nglp * _intervals.size());
 
   for (long interval = 0; interval < _intervals.size(); interval++) {
 
-    double local_left_bound = left_bound + interval * _intervals[interval];
-
     result.segment(interval * _nglp, _nglp) =
         (glp.array() + 1.0) * _intervals[interval] / 2.0 + local_left_bound;
+
+    local_left_bound += _intervals[interval];
   }
   return result;
 }
-- 
2.43.0


From 503c9f739a1178195f8a206ccf6ada0578649c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:52 +0000
Subject: [PATCH 06/23] fix: Lagrange basis L2 and derivative matrices

The off-diagonal entries of the L2 matrix were never initialised, the change of
points was not applied and the derivative matrix was transposed.
---
 src/Basis/BasisLagrange.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/Basis/BasisLagrange.cpp b/src/Basis/BasisLagrange.cpp
index 691926f..6c018d0 100644
--- a/src/Basis/BasisLagrange.cpp
+++ b/src/Basis/BasisLagrange.cpp
@@ -41,18 +41,21 @@ BasisLagrange::BasisLagrange(Eigen::Ref<const Eigen::VectorXd> _domain_points)
   Eigen::MatrixXd dmat(derivative_matrix_);
 
   Eigen::MatrixXd points_to_glp_matrix(change_interpolation_points(
-      _domain_points, collocation::legendre_gauss_lobatto_points(get_dim())));
+      _domain_points,
+      collocation::legendre_gauss_lobatto_points(get_dim() + 1)));
 
-  Eigen::MatrixXd l2normbase_matrix(get_dim(), get_dim());
-
-  l2normbase_matrix.diagonal() =
-      collocation::legendre_gauss_lobatto_weights(get_dim());
+  // one point more than the dimension makes the quadrature of the products of
+  // two basis functions exact
+  Eigen::MatrixXd l2normbase_matrix =
+      points_to_glp_matrix.transpose() *
+      collocation::legendre_gauss_lobatto_weights(get_dim() + 1).asDiagonal() *
+      points_to_glp_matrix;
 
   derivative_matrices_buffer_.push_back(l2normbase_matrix);
 
   for (std::size_t i = 1; i < get_dim() + 1; i++) {
-    derivative_matrices_buffer_.push_back(dmat * l2normbase_matrix *
-                                          dmat.transpose());
+    derivative_matrices_buffer_.push_back(dmat.transpose() * l2normbase_matrix *
+                                          dmat);
     dmat = derivative_matrix(domain_points_, i + 1);
   }
   // get_derivative_matrix(get_dim());
-- 
2.43.0


From e4a5f3804a771019785f6bbcb4ea2e0ea1023e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:52 +0000
Subject: [PATCH 07/23] fix: Legendre derivative matrices are D^T L D

The coefficients of the derivative are D c, so the transposed product gave the
wrong quadratic form.
---
 src/Basis/BasisLegendre.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Basis/BasisLegendre.cpp b/src/Basis/BasisLegendre.cpp
index 9c3b328..8ec9616 100644
--- a/src/Basis/BasisLegendre.cpp
+++ b/src/Basis/BasisLegendre.cpp
@@ -28,8 +28,8 @@ BasisLegendre::BasisLegendre(std::size_t _dim)
 
   derivative_matrices_buffer_.push_back(l2normbase_matrix);
   for (std::size_t i = 1; i < _dim + 1; i++) {
-    derivative_matrices_buffer_.push_back(dmat * l2normbase_matrix *
-                                          dmat.transpose());
+    derivative_matrices_buffer_.push_back(dmat.transpose() * l2normbase_matrix *
+                                          dmat);
     dmat *= derivative_matrix_;
   }
   // get_derivative_matrix(get_dim());
-- 
2.43.0


From 7754818c96154a359dc0db8097ecc2f3701c79a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:49 +0000
Subject: [PATCH 08/23] fix: negation of sums, products, compositions and
 concatenations

The negative expression took over the operands of the original expression and
evaluated only the first of them.
---
 src/Functions/FunctionMul.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index 9383f1a..bceaf70 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -141,16 +141,30 @@ FunctionExpression::operator*(FunctionExpression &&_that) && {
 }
 FunctionExpression FunctionExpression::operator-() const & {
 
+  if (get_type() == UNIQUE)
+    return FunctionExpression(get_domain(), get_codom_dim(),
+                              FunctionExpression::Type::NEGATIVE,
+                              function_array_);
+
+  std::list<std::unique_ptr<FunctionBase>> result_array;
+  result_array.push_back(this->clone());
   return FunctionExpression(get_domain(), get_codom_dim(),
                             FunctionExpression::Type::NEGATIVE,
-                            function_array_);
+                            std::move(result_array));
 }
 
 FunctionExpression FunctionExpression::operator-() && {
 
+  if (get_type() == UNIQUE)
+    return FunctionExpression(get_domain(), get_codom_dim(),
+                              FunctionExpression::Type::NEGATIVE,
+                              std::move(function_array_));
+
+  std::list<std::unique_ptr<FunctionBase>> result_array;
+  result_array.push_back(this->move_clone());
   return FunctionExpression(get_domain(), get_codom_dim(),
                             FunctionExpression::Type::NEGATIVE,
-                            std::move(function_array_));
+                            std::move(result_array));
 }
 
 FunctionExpression operator*(double _value, const FunctionExpression &_that) {
-- 
2.43.0


From 9ca97d8348263013db4f2308a8a2c65f32a1e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:49 +0000
Subject: [PATCH 09/23] fix: domain of concatenations and compositions built
 from a temporary

A temporary that is already a concatenation (composition) kept its old domain.
---
 src/Functions/FunctionsComp.cpp   | 1 +
 src/Functions/FunctionsConcat.cpp | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Functions/FunctionsComp.cpp b/src/Functions/FunctionsComp.cpp
index 8666a04..bd0f7b6 100644
--- a/src/Functions/FunctionsComp.cpp
+++ b/src/Functions/FunctionsComp.cpp
@@ -96,6 +96,7 @@ FunctionExpression::compose(const FunctionExpression &_that) && {
     } else {
       function_array_.push_front(_that.clone());
     }
+    set_domain(_that.get_domain().first, _that.get_domain().second);
     return std::move(*this);
   }
 
diff --git a/src/Functions/FunctionsConcat.cpp b/src/Functions/FunctionsConcat.cpp
index 094ca37..3048e14 100644
--- a/src/Functions/FunctionsConcat.cpp
+++ b/src/Functions/FunctionsConcat.cpp
@@ -97,8 +97,10 @@ FunctionExpression::concat(const FunctionExpression &_that) && {
     target_array.push_back(_that.clone());
   }
 
-  if (get_type() == CONCATENATION)
+  if (get_type() == CONCATENATION) {
+    set_domain(get_domain().first, _that.get_domain().second);
     return std::move(*this);
+  }
 
   target_array.push_front(this->move_clone());
 
@@ -124,8 +126,10 @@ FunctionExpression FunctionExpression::concat(FunctionExpression &&_that) && {
     target_array.push_back(_that.move_clone());
   }
 
-  if (get_type() == CONCATENATION)
+  if (get_type() == CONCATENATION) {
+    set_domain(get_domain().first, _that.get_domain().second);
     return std::move(*this);
+  }
 
   target_array.push_front(this->move_clone());
   return FunctionExpression(
-- 
2.43.0


From 08895809db358da8f205385c624c91a905670cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:49 +0000
Subject: [PATCH 10/23] fix: GaussLobattoLagrangeSpline(function, n_intervals,
 n_glp) swapped its sizes

---
 src/Collocation/GaussLobattoLagrange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index a856c26..3fa5a18 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -55,7 +55,7 @@ GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(GSpline &&_that)
 GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(
     const ::gsplines::functions::FunctionBase &_that, std::size_t _n_intervals,
     std::size_t _n_glp)
-    : GaussLobattoLagrangeSpline(approximate(_that, _n_intervals, _n_glp)) {}
+    : GaussLobattoLagrangeSpline(approximate(_that, _n_glp, _n_intervals)) {}
 
 GaussLobattoLagrangeSpline &GaussLobattoLagrangeSpline::operator=(
     const GaussLobattoLagrangeSpline &_that) & {
-- 
2.43.0


From 77db190eb3924004a9494ccc5ce8ff56bd5616f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:49 +0000
Subject: [PATCH 11/23] fix: assignment of Gauss-Lobatto splines copies the
 interval lengths

The domain and the coefficients were assigned but the old lengths were kept.
---
 src/Collocation/GaussLobattoLagrange.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index 3fa5a18..2bc6e27 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -67,6 +67,7 @@ GaussLobattoLagrangeSpline &GaussLobattoLagrangeSpline::operator=(
 
   set_domain(_that.get_domain());
 
+  domain_interval_lengths_ = _that.domain_interval_lengths_;
   coefficients_ = _that.coefficients_;
   return *this;
 }
@@ -81,6 +82,7 @@ GaussLobattoLagrangeSpline::operator=(GaussLobattoLagrangeSpline &&_that) & {
     throw std::invalid_argument("Assigmention requires same codomain");
 
   set_domain(_that.get_domain());
+  domain_interval_lengths_ = std::move(_that.domain_interval_lengths_);
   coefficients_ = std::move(_that.coefficients_);
   return *this;
 }
-- 
2.43.0


From 2bc8339adfd94d378d074be2456f52c8bcdedf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:02 +0000
Subject: [PATCH 12/23] fix: time scaling with only a velocity or only an
 acceleration bound

The absent bound was read and std::bad_optional_access was thrown.
---
 include/gsplines/GSpline.hpp | 45 +++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/include/gsplines/GSpline.hpp b/include/gsplines/GSpline.hpp
index 07692ea..79e9065 100644
--- a/include/gsplines/GSpline.hpp
+++ b/include/gsplines/GSpline.hpp
@@ -292,8 +292,10 @@ class GSplineInheritanceHelper
     if (_dt < 1.0e-8) {
       throw std::invalid_argument("dt cannot be negative or too small");
     }
-    if (_velocity_bound.value().size() != this->get_codom_dim() ||
-        _acceleration_bound.value().size() != this->get_codom_dim()) {
+    if ((_velocity_bound.has_value() &&
+         _velocity_bound.value().size() != this->get_codom_dim()) ||
+        (_acceleration_bound.has_value() &&
+         _acceleration_bound.value().size() != this->get_codom_dim())) {
       throw std::invalid_argument(
           "Bounds for velocity and acceleration must correspont to codom dim");
     }
@@ -312,23 +314,28 @@ class GSplineInheritanceHelper
     Eigen::MatrixXd gspline_diff_1_evaluated = gspline_diff_1(time_spam);
     Eigen::MatrixXd gspline_diff_2_evaluated = gspline_diff_2(time_spam);
 
-    const Eigen::Map<const Eigen::VectorXd> velocity_bound(
-        _velocity_bound.value().data(),
-        static_cast<long>(_velocity_bound.value().size()));
-    const Eigen::Map<const Eigen::VectorXd> acceleration_bound(
-        _acceleration_bound.value().data(),
-        static_cast<long>(_acceleration_bound.value().size()));
-
-    const double max_velocity_ratio =
-        (gspline_diff_1_evaluated.array().abs().colwise().maxCoeff() /
-         velocity_bound.transpose().array())
-            .maxCoeff();
-
-    const double max_acceleration_ratio =
-        Eigen::sqrt(
-            gspline_diff_2_evaluated.array().abs().colwise().maxCoeff() /
-            acceleration_bound.transpose().array())
-            .maxCoeff();
+    double max_velocity_ratio = 0.0;
+    if (_velocity_bound.has_value()) {
+      const Eigen::Map<const Eigen::VectorXd> velocity_bound(
+          _velocity_bound.value().data(),
+          static_cast<long>(_velocity_bound.value().size()));
+      max_velocity_ratio =
+          (gspline_diff_1_evaluated.array().abs().colwise().maxCoeff() /
+           velocity_bound.transpose().array())
+              .maxCoeff();
+    }
+
+    double max_acceleration_ratio = 0.0;
+    if (_acceleration_bound.has_value()) {
+      const Eigen::Map<const Eigen::VectorXd> acceleration_bound(
+          _acceleration_bound.value().data(),
+          static_cast<long>(_acceleration_bound.value().size()));
+      max_acceleration_ratio =
+          Eigen::sqrt(
+              gspline_diff_2_evaluated.array().abs().colwise().maxCoeff() /
+              acceleration_bound.transpose().array())
+              .maxCoeff();
+    }
 
     const double time_scale_factor =
         std::max(max_velocity_ratio, max_acceleration_ratio);
-- 
2.43.0


From 2e00cda7f116a15f60828f1fbd3d540e0477c5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:02 +0000
Subject: [PATCH 13/23] fix: operator+= and operator-= of splines could not be
 compiled

---
 include/gsplines/GSpline.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/GSpline.hpp b/include/gsplines/GSpline.hpp
index 79e9065..5ecf828 100644
--- a/include/gsplines/GSpline.hpp
+++ b/include/gsplines/GSpline.hpp
@@ -218,7 +218,7 @@ class GSplineInheritanceHelper
       throw std::invalid_argument("Cannot sum Incompatible Gspline");
     }
     Base::coefficients_ += that.coefficients_;
-    return *this;
+    return static_cast<Current&>(*this);
   }
 
   Current& operator-=(const Current& that) {
@@ -227,7 +227,7 @@ class GSplineInheritanceHelper
     }
 
     Base::coefficients_ -= that.coefficients_;
-    return *this;
+    return static_cast<Current&>(*this);
   }
 
   Current linear_scaling_new_execution_time(double _new_exec_time) const {
-- 
2.43.0


From 837696c4a4a9318c32957a4c6d15ec8f2d790636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:02 +0000
Subject: [PATCH 14/23] fix: reject splines whose number of lengths is not the
 number of intervals

Evaluating such a spline read coefficients out of range.
---
 src/GSpline.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index 7231b74..06318dd 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -50,6 +50,11 @@ GSplineBase::GSplineBase(std::pair<double, double> _domain,
       domain_interval_lengths_(_tauv),
       basis_(_basis.clone()),
       basis_buffer_(basis_->get_dim()) {
+  if (domain_interval_lengths_.size() != (long)_n_intervals) {
+    throw std::invalid_argument(
+        "GSplineBase instantation Error: The number of interval lengths is "
+        "incorrect");
+  }
   if (coefficients_.size() !=
       (long)(_n_intervals * basis_->get_dim() * _codom_dim)) {
     throw std::invalid_argument(
@@ -74,6 +79,11 @@ GSplineBase::GSplineBase(std::pair<double, double> _domain,
       domain_interval_lengths_(std::move(_tauv)),
       basis_(_basis.clone()),
       basis_buffer_(basis_->get_dim()) {
+  if (domain_interval_lengths_.size() != (long)_n_intervals) {
+    throw std::invalid_argument(
+        "GSplineBase instantation Error: The number of interval lengths is "
+        "incorrect");
+  }
   if (coefficients_.size() !=
       (long)(_n_intervals * basis_->get_dim() * _codom_dim)) {
     throw std::invalid_argument(
-- 
2.43.0


From 28933f9ec1fb435abd2047ed492ca43d5a993aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:02 +0000
Subject: [PATCH 15/23] fix: Legendre derivatives of degree not below the
 dimension are zero

They wrote out of the buffers, as did a basis of dimension one.
---
 src/Basis/BasisLegendre.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Basis/BasisLegendre.cpp b/src/Basis/BasisLegendre.cpp
index 8ec9616..c84dcba 100644
--- a/src/Basis/BasisLegendre.cpp
+++ b/src/Basis/BasisLegendre.cpp
@@ -54,8 +54,9 @@ void BasisLegendre::eval_derivative_on_window(
   double mutiplier = 1.0;
   _buff.setZero();
   buff_next.setZero();
+  if (_deg >= get_dim()) return;
   _buff(0) = 1.0;
-  _buff(1) = _s;
+  if (get_dim() > 1) _buff(1) = _s;
   for (unsigned int i = 1; i < get_dim() - 1; i++) {
     _buff(i + 1) =
         1.0 / ((double)i + 1.0) *
@@ -91,7 +92,7 @@ void BasisLegendre::eval_on_window(
     Eigen::Ref<Eigen::VectorXd, 0, Eigen::InnerStride<>> _buff) const {
   _buff.setZero();
   _buff(0) = 1.0;
-  _buff(1) = _s;
+  if (get_dim() > 1) _buff(1) = _s;
   for (std::size_t i = 1; i < get_dim() - 1; i++) {
     _buff(i + 1) =
         1.0 / ((double)i + 1.0) *
-- 
2.43.0


From 9a815bb2325e0b186da0d5a5a188289df93e17f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:24 +0000
Subject: [PATCH 16/23] fix: collocation points of splines with intervals of
 different lengths

get_domain_discretization assumed equal intervals.
---
 include/gsplines/Collocation/GaussLobattoLagrange.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrange.hpp b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
index 7212784..49b323d 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrange.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
@@ -112,8 +112,8 @@ public:
 
   std::size_t get_nglp() const { return get_basis_dim(); }
   Eigen::VectorXd get_domain_discretization() const {
-    return legendre_gauss_lobatto_points(get_domain(), get_nglp(),
-                                         get_number_of_intervals());
+    return legendre_gauss_lobatto_points(get_domain().first, get_nglp(),
+                                         get_interval_lengths());
   }
 
   GaussLobattoLagrangeSpline
-- 
2.43.0


From 1ce9e79d13361c5f318f5949ec210d74fdf39f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:24 +0000
Subject: [PATCH 17/23] fix: compound assignment of expressions checks its
 operands

operator+= and operator*= accepted operands that the binary operators reject and
the result could not be evaluated.
---
 src/Functions/FunctionMul.cpp | 12 ++++++++++++
 src/Functions/FunctionSum.cpp |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index bceaf70..380f584 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -17,6 +17,16 @@ void compatibility_mul(const FunctionExpression &_f1,
   }
 }
 
+void compatibility_mul_assign(const FunctionExpression &_f1,
+                              const FunctionExpression &_f2) {
+
+  compatibility_mul(_f1, _f2);
+  if (_f2.get_codom_dim() > _f1.get_codom_dim()) {
+    throw std::invalid_argument(
+        "A scalar function cannot become a vector function");
+  }
+}
+
 const FunctionExpression &
 return_first_or_max_codom_dim(const FunctionExpression &_f1,
                               const FunctionExpression &_f2) {
@@ -177,6 +187,7 @@ FunctionExpression operator*(double _value, FunctionExpression &&_that) {
 }
 
 void FunctionExpression::operator*=(FunctionExpression &&that) {
+  compatibility_mul_assign(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = MULTIPLICATION;
@@ -193,6 +204,7 @@ void FunctionExpression::operator*=(FunctionExpression &&that) {
 
 void FunctionExpression::operator*=(const FunctionExpression &that) {
 
+  compatibility_mul_assign(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = MULTIPLICATION;
diff --git a/src/Functions/FunctionSum.cpp b/src/Functions/FunctionSum.cpp
index fea1634..1ed229d 100644
--- a/src/Functions/FunctionSum.cpp
+++ b/src/Functions/FunctionSum.cpp
@@ -137,6 +137,7 @@ FunctionExpression *deriv_sum_functions(
 }
 
 void FunctionExpression::operator+=(FunctionExpression &&that) {
+  sum_throw(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = SUM;
@@ -153,6 +154,7 @@ void FunctionExpression::operator+=(FunctionExpression &&that) {
 
 void FunctionExpression::operator+=(const FunctionExpression &that) {
 
+  sum_throw(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = SUM;
-- 
2.43.0


From e149f6fd5c6b6d654667cdf4d845c1195a67513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:24 +0000
Subject: [PATCH 18/23] fix: product of Gauss-Lobatto splines on different
 intervals

Values at different collocation points were multiplied.
---
 src/Collocation/GaussLobattoLagrange.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index 2bc6e27..ba8e1ca 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -227,7 +227,9 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
 
   if (not same_discretization(_that))
     throw std::invalid_argument("Discretization must be the same");
-  if (not same_domain(_that))
+  if (not same_domain(_that) or
+      not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
     throw std::invalid_argument("GSplines must have same domain");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
@@ -255,7 +257,9 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
 
   if (not same_discretization(_that))
     throw std::invalid_argument("Discretization must be the same");
-  if (not same_domain(_that))
+  if (not same_domain(_that) or
+      not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
     throw std::invalid_argument("GSplines must have same domain");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
@@ -295,7 +299,9 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
 
   if (not same_discretization(_that))
     throw std::invalid_argument("Discretization must be the same");
-  if (not same_domain(_that))
+  if (not same_domain(_that) or
+      not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
     throw std::invalid_argument("GSplines must have same domain");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
@@ -335,7 +341,9 @@ GaussLobattoLagrangeSpline::operator*(GaussLobattoLagrangeSpline &&_that) && {
 
   if (not same_discretization(_that))
     throw std::invalid_argument("Discretization must be the same");
-  if (not same_domain(_that))
+  if (not same_domain(_that) or
+      not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-8))
     throw std::invalid_argument("GSplines must have same domain");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
-- 
2.43.0


From d7324ad1c25922aa1914b9290a2f7d98ae61318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:24 +0000
Subject: [PATCH 19/23] fix: random_gspline honours the left end of the
 requested domain

---
 src/GSpline.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index 06318dd..c96da59 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -253,7 +253,10 @@ GSpline random_gspline(std::pair<double, double> _domain,
                                   static_cast<long>(_codom_dim));
 
   const GSpline result = interpolate(tau, wp, _basis);
-  return result.linear_scaling_new_execution_time(_domain.second);
+  const GSpline scaled = result.linear_scaling_new_execution_time(
+      _domain.second - _domain.first);
+  return GSpline(_domain, _codom_dim, number_of_intervals, scaled.get_basis(),
+                 scaled.get_coefficients(), scaled.get_interval_lengths());
 }
 
 }  // namespace gsplines
-- 
2.43.0


From 87a9185b99e1520df874d16d3bae22edfe2d4c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:36 +0000
Subject: [PATCH 20/23] fix: scale of the second derivative inner product
 matrix of basis0101

---
 src/Basis/Basis0101.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Basis/Basis0101.cpp b/src/Basis/Basis0101.cpp
index ade0823..ea61e9f 100644
--- a/src/Basis/Basis0101.cpp
+++ b/src/Basis/Basis0101.cpp
@@ -747,6 +747,10 @@ void compute_Qd2_block(double _tau, double _alpha,
   _res(5, 3) = 0;
   _res(5, 4) = 0;
   _res(5, 5) = 0;
+
+  // the entries above carry a factor (tau/2)^2 that derivatives with respect
+  // to time do not have
+  _res *= pow(2.0 / _tau, 2);
 }
 
 void compute_Q_block(double _tau, double _alpha,
-- 
2.43.0


From 5bdc2bd47308dfc669201aa776588c2340fe3a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:33 +0000
Subject: [PATCH 21/23] fix: splines on different domains are not in the same
 vector space

operator+ and operator- of two splines whose interval lengths agree but whose
domains start at different instants were accepted, with the domain of one of
the operands as result.
---
 src/GSpline.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index c96da59..6f329c4 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -206,6 +206,8 @@ Eigen::MatrixXd GSplineBase::get_waypoints() const {
 bool GSplineBase::same_vector_space(const GSplineBase& _that) const {
   return get_basis() == _that.get_basis() and
          get_codom_dim() == _that.get_codom_dim() and
+         tools::approx_equal(get_domain().first, _that.get_domain().first,
+                             1.0e-8) and
          tools::approx_equal(get_interval_lengths(),
                              _that.get_interval_lengths(), 1.0e-8);
 }
-- 
2.43.0


From 6fbe5b9e87bbe5debf4230432e8f4c859b7270bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:33 +0000
Subject: [PATCH 22/23] fix: splines on different domains are not equal

operator== and approx_equal of splines compared coefficients, lengths and basis
but not where the domain starts.
---
 src/Tools.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Tools.cpp b/src/Tools.cpp
index dd69101..e58e58b 100644
--- a/src/Tools.cpp
+++ b/src/Tools.cpp
@@ -50,6 +50,8 @@ bool approx_equal(const GSplineBase &_lhs, const GSplineBase &_rhs,
                       _tol) and
          approx_equal(_lhs.get_interval_lengths(), _rhs.get_interval_lengths(),
                       _tol) and
+         approx_equal(_lhs.get_domain().first, _rhs.get_domain().first,
+                      _tol) and
          _lhs.get_basis() == _rhs.get_basis();
 }
 
-- 
2.43.0


From 64d99a6f7771d23676276405ad702082228f49d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:39 +0000
Subject: [PATCH 23/23] fix: continuity and derivative matrices of basis0101 on
 intervals of any length

---
 src/Basis/Basis.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/Basis/Basis.cpp b/src/Basis/Basis.cpp
index 42ab339..2f0fc76 100644
--- a/src/Basis/Basis.cpp
+++ b/src/Basis/Basis.cpp
@@ -123,6 +123,27 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
   Eigen::SparseMatrix<double, Eigen::RowMajor>& mat_src =
       continuity_matrix_buff_[_number_of_intervals][_codom_dim][_deriv_order];
 
+  // the functions of basis0101, and not only the scale of their derivatives,
+  // depend on the interval length
+  if (dynamic_cast<const Basis0101*>(this) != nullptr) {
+    Eigen::VectorXd buffer(get_dim());
+    for (long k = 0; k < mat_dest.outerSize(); ++k) {
+      std::size_t deg = k / (_codom_dim * (_number_of_intervals - 1));
+      std::size_t left_interval =
+          (k % (_codom_dim * (_number_of_intervals - 1))) / _codom_dim;
+      for (Eigen::SparseMatrix<double, Eigen::RowMajor>::InnerIterator it(
+               mat_dest, k);
+           it; ++it) {
+        std::size_t interval = it.col() / (get_dim() * _codom_dim);
+        double side = (interval == left_interval) ? 1.0 : -1.0;
+        eval_derivative_on_window(side, _interval_lengths(interval), deg,
+                                  buffer);
+        it.valueRef() = side * buffer(it.col() % get_dim());
+      }
+    }
+    return mat_dest;
+  }
+
   // in our case all the rows of the matrix have at more than one non-zero cell
   // By this reason the outer index coincieds with the cols
   for (long k = _codom_dim * (_number_of_intervals - 1);
@@ -199,6 +220,11 @@ Basis::gspline_derivative_matrix(
   Eigen::VectorXd deriv_factor =
       Eigen::pow(2.0 / _interval_lengths.array(), _deriv_order);
 
+  // the derivative matrix of basis0101 does not depend on the interval length
+  if (dynamic_cast<const Basis0101*>(this) != nullptr) {
+    deriv_factor.setOnes();
+  }
+
   for (long k = 0; k < mat_dest.outerSize(); ++k) {
     // std::size_t deg = k / (_codom_dim * (_number_of_intervals - 1));
 
-- 
2.43.0

