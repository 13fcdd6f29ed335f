From 4f7ee11eaab8d5fdec13c5402c2af680c93c45ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 01/12] fix: reject negative variable indices in inequality
 constraints

---
 include/mini_opt/qp.hpp | 1 +
 source/qp.cc            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/mini_opt/qp.hpp b/include/mini_opt/qp.hpp
index 6f3e06c..7b799aa 100644
--- a/include/mini_opt/qp.hpp
+++ b/include/mini_opt/qp.hpp
@@ -60,6 +60,7 @@ struct LinearInequalityConstraint {
 
   // Version of shift that takes vector.
   LinearInequalityConstraint ShiftTo(const Eigen::VectorXd& x) const {
+    F_ASSERT_GE(variable, 0);
     F_ASSERT_LT(variable, x.rows());
     return ShiftTo(x[variable]);
   }
diff --git a/source/qp.cc b/source/qp.cc
index 58efe5e..66d7407 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -68,6 +68,7 @@ void QPInteriorPointSolver::Setup(const QP* const problem) {
 
   // check indices up front
   for (const LinearInequalityConstraint& c : p_->constraints) {
+    F_ASSERT_GE(c.variable, 0, "Constraint index is negative");
     F_ASSERT_LT(c.variable, static_cast<int>(dims_.N), "Constraint index is out of bounds");
   }
 }
-- 
2.43.0


From 9020e5aaff6e40c126893be3da95856c998bc72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 02/12] fix: hold the collector lock while formatting trace
 events

---
 source/tracing.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/tracing.cc b/source/tracing.cc
index 5015fb7..f5d6bd6 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -107,7 +107,9 @@ void trace_collector::submit_event(trace_event event) {
 trace_collector_impl& trace_collector::impl() noexcept { return *impl_; }
 
 std::string trace_collector::get_trace_json() {
-  return fmt::format(json_object_template, fmt::join(impl_->events, ",\n    "));
+  auto& self = impl();
+  std::lock_guard guard{self.mutex};
+  return fmt::format(json_object_template, fmt::join(self.events, ",\n    "));
 }
 
 template <typename U, typename T>
-- 
2.43.0


From 3d6cf9319eb0b7b845d017c4c9e5c2eedea011f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 03/12] fix: check problem dimensions in QPNullSpaceSolver

---
 source/qp.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/qp.cc b/source/qp.cc
index 66d7407..d6032b0 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -680,6 +680,9 @@ void QPInteriorPointSolver::BuildFullSystem(Eigen::MatrixXd* const H,
 QPNullSpaceTerminationState QPNullSpaceSolver::Solve(const QP& p) {
   F_ASSERT_GT(p.A_eq.rows(), 0, "Problem must have at least one equality constraint");
   F_ASSERT_EQ(p.A_eq.rows(), p.b_eq.rows());
+  F_ASSERT_EQ(p.G.rows(), p.G.cols(), "G must be square");
+  F_ASSERT_EQ(p.G.rows(), p.c.rows(), "Dims of G and c must match");
+  F_ASSERT_EQ(p.A_eq.cols(), p.G.rows(), "Dims of A_e and G must match");
 
   const int num_equality_constraints = static_cast<int>(p.A_eq.rows());
   const int num_params = static_cast<int>(p.A_eq.cols());
-- 
2.43.0


From 0b23d40a2b6fce79c4bce460bad4a1ddf459bdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 04/12] fix: handle linearly dependent equality constraints in
 QPNullSpaceSolver

---
 source/qp.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/qp.cc b/source/qp.cc
index d6032b0..026e12c 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -701,13 +701,14 @@ QPNullSpaceTerminationState QPNullSpaceSolver::Solve(const QP& p) {
   const auto Q1 = Q_.leftCols(rank);
   const auto Q2 = Q_.rightCols(Q_.cols() - rank);
 
-  // The non-zero rows of R:
-  const auto R_upper = R.topRows(num_equality_constraints).template triangularView<Eigen::Upper>();
+  // The non-singular upper triangle of R. Linearly dependent constraints are ordered last, and are
+  // satisfied automatically when the constraints are consistent.
+  const auto R_upper = R.topLeftCorner(rank, rank).template triangularView<Eigen::Upper>();
 
   // Compute u = Q1 * (R1^T)^-1 * (P^-1) * b_eq
   // `u` is a particular solution to the equality constrained system: A_eq * x + b = 0
   permuted_rhs_.noalias() = P.transpose() * -p.b_eq;
-  u_.noalias() = Q1 * R_upper.transpose().solve(permuted_rhs_);
+  u_.noalias() = Q1 * R_upper.transpose().solve(permuted_rhs_.head(rank));
   F_ASSERT_EQ(num_params, u_.rows());
 
   // Compute the reduced hessian by projecting `G` into null(A_eq)
-- 
2.43.0


From 7d540089dae7d8e9167acab4d45bab28c819de37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 05/12] fix: compute the affine complementarity from the
 current complementarity

---
 source/qp.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/qp.cc b/source/qp.cc
index 026e12c..10b34ec 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -178,9 +178,10 @@ IPIterationOutputs QPInteriorPointSolver::Iterate(const double mu_input,
     delta_affine_ = delta_;
 
     // Compute complementarity had we applied this update we just solved.
-    outputs.mu_affine = ComputePredictorCorrectorMuAffine(outputs.mu, outputs.alpha_probe);
+    const double mu_current = ComputeMu();
+    outputs.mu_affine = ComputePredictorCorrectorMuAffine(mu_current, outputs.alpha_probe);
 
-    const double sigma = std::pow(outputs.mu_affine / outputs.mu, 3);  // equation (19.22)
+    const double sigma = std::pow(outputs.mu_affine / mu_current, 3);  // equation (19.22)
     outputs.mu = sigma * mu_input;
 
     // Solve again (alpha will be computed again below), input sigma is ignored.
@@ -516,7 +517,7 @@ double QPInteriorPointSolver::ComputeMu() const {
   return s.dot(z) / static_cast<double>(dims_.M);
 }
 
-// We don't re-evaluate the s^T * z / M term, because it is already stored in mu.
+// We don't re-evaluate the s^T * z / M term, it is passed as `mu` (the output of `ComputeMu`).
 double QPInteriorPointSolver::ComputePredictorCorrectorMuAffine(
     const double mu, const AlphaValues& alpha_probe) const {
   const auto s = ConstSBlock(dims_, variables_);
-- 
2.43.0


From c33d32d6df22e88a703ce1c400d14896c3c4e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 06/12] fix: limit the step so that no component falls below (1
 - tau) of its value

---
 source/qp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/qp.cc b/source/qp.cc
index 10b34ec..b6a1116 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -498,7 +498,7 @@ double QPInteriorPointSolver::ComputeAlpha(const ConstVectorBlock& val,
   double alpha = 1.0;
   for (int i = 0; i < val.rows(); ++i) {
     const double updated_val = val[i] + d_val[i];
-    if (updated_val <= 0.0 && std::abs(d_val[i]) > 0) {
+    if (updated_val < (1.0 - tau) * val[i] && d_val[i] < 0) {
       const double candidate_alpha = -tau * val[i] / d_val[i];
       if (candidate_alpha < alpha) {
         alpha = candidate_alpha;
-- 
2.43.0


From e039a40b9f0a684e573cd5c1676bd6be363b2da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 07/12] fix: reject variables of the wrong length in
 SetVariables

---
 source/qp.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/qp.cc b/source/qp.cc
index b6a1116..59470d2 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -220,7 +220,10 @@ VectorBlock QPInteriorPointSolver::y_block() { return YBlock(dims_, variables_);
 
 VectorBlock QPInteriorPointSolver::z_block() { return ZBlock(dims_, variables_); }
 
-void QPInteriorPointSolver::SetVariables(const Eigen::VectorXd& v) { variables_ = v; }
+void QPInteriorPointSolver::SetVariables(const Eigen::VectorXd& v) {
+  F_ASSERT_EQ(v.rows(), variables_.rows(), "Variables have the wrong dimension");
+  variables_ = v;
+}
 
 const QP& QPInteriorPointSolver::problem() const {
   F_ASSERT(p_, "Cannot call unless initialized");
-- 
2.43.0


From a15874833144b1c192117830967426f8124c4e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 08/12] fix: reject variables of the wrong length in the
 nonlinear solver

---
 source/nonlinear.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/nonlinear.cc b/source/nonlinear.cc
index a72e6cc..ba00379 100644
--- a/source/nonlinear.cc
+++ b/source/nonlinear.cc
@@ -77,6 +77,7 @@ NLSSolverOutputs ConstrainedNonlinearLeastSquares::Solve(const Params& params,
   MINI_OPT_FUNCTION_TRACE();
   F_ASSERT(p_ != nullptr, "Must have a valid problem");
   CheckParams(params);
+  F_ASSERT_EQ(variables.rows(), p_->dimension, "Variables have the wrong dimension");
   variables_ = variables;
   state_ = OptimizerState::NOMINAL;
 
-- 
2.43.0


From 286bcb31a3fbb4d28c07e089f97dac73aa3f7ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 09/12] fix: reject a zero initial penalty before starting to
 solve

---
 source/nonlinear.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/nonlinear.cc b/source/nonlinear.cc
index ba00379..d345ba3 100644
--- a/source/nonlinear.cc
+++ b/source/nonlinear.cc
@@ -57,7 +57,7 @@ static void CheckParams(const ConstrainedNonlinearLeastSquares::Params& params)
   F_ASSERT_GE(params.absolute_first_derivative_tol, 0);
   F_ASSERT_GT(params.armijo_search_tau, 0);
   F_ASSERT_LT(params.armijo_search_tau, 1);
-  F_ASSERT_GE(params.equality_penalty_initial, 0);
+  F_ASSERT_GT(params.equality_penalty_initial, 0);
   F_ASSERT_GE(params.equality_penalty_scale_factor, 1.0);
   F_ASSERT_GE(params.equality_penalty_rho, 0);
   F_ASSERT_LT(params.equality_penalty_rho, 1);
-- 
2.43.0


From 0b14c969aac0d79d3ea7d5c3089ea1ba52482644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 10/12] fix: reject a negative minimum lambda

---
 source/nonlinear.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/nonlinear.cc b/source/nonlinear.cc
index d345ba3..e59fca9 100644
--- a/source/nonlinear.cc
+++ b/source/nonlinear.cc
@@ -62,6 +62,7 @@ static void CheckParams(const ConstrainedNonlinearLeastSquares::Params& params)
   F_ASSERT_GE(params.equality_penalty_rho, 0);
   F_ASSERT_LT(params.equality_penalty_rho, 1);
   F_ASSERT_GE(params.max_lambda, 0);
+  F_ASSERT_GE(params.min_lambda, 0);
   F_ASSERT_LE(params.min_lambda, params.max_lambda);
   F_ASSERT_GE(params.lambda_initial, params.min_lambda);
   F_ASSERT_LE(params.lambda_initial, params.max_lambda);
-- 
2.43.0


From b7e29df382669f4f87d74197afe905e9d5acb908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 11/12] fix: restore non-finite numbers when reading solver
 outputs from JSON

---
 source/serialization.cc | 82 +++++++++++++++++++++++++++++++++--------
 1 file changed, 67 insertions(+), 15 deletions(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index ba84351..63d9a4c 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -3,6 +3,10 @@
 
 #ifdef MINI_OPT_SERIALIZATION
 
+#include <cmath>
+#include <limits>
+#include <type_traits>
+
 #include <nlohmann/json.hpp>
 
 using json = nlohmann::json;
@@ -29,6 +33,54 @@ static void from_json(const json& j, std::optional<T>& x) {
   }
 }
 
+// JSON text cannot represent non-finite numbers: NaN is printed as `null`, and we store infinities as
+// strings so that they are not mistaken for NaN.
+template <typename T>
+static void FieldToJson(json& j, const T& x) {
+  if constexpr (std::is_same_v<T, double>) {
+    if (std::isinf(x)) {
+      j = x > 0 ? "Infinity" : "-Infinity";
+      return;
+    }
+  }
+  j = x;
+}
+
+template <typename T>
+static void FieldFromJson(const json& j, T& x) {
+  if constexpr (std::is_same_v<T, double>) {
+    if (j.is_null()) {
+      x = std::numeric_limits<double>::quiet_NaN();
+      return;
+    } else if (j == "Infinity") {
+      x = std::numeric_limits<double>::infinity();
+      return;
+    } else if (j == "-Infinity") {
+      x = -std::numeric_limits<double>::infinity();
+      return;
+    }
+  }
+  j.get_to(x);
+}
+
+static double NumberFromJson(const json& j) {
+  double x{};
+  FieldFromJson(j, x);
+  return x;
+}
+
+#define MINI_OPT_FIELD_TO_JSON(field) FieldToJson(j[#field], x.field);
+#define MINI_OPT_FIELD_FROM_JSON(field) FieldFromJson(j.at(#field), x.field);
+
+// Version of NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE that supports non-finite numbers.
+#define MINI_OPT_DEFINE_JSON(Type, ...)                                                  \
+  static void to_json(json& j, const Type& x) {                                          \
+    NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(MINI_OPT_FIELD_TO_JSON, __VA_ARGS__))       \
+  }                                                                                      \
+  static void from_json(const json& j, Type& x) {                                        \
+    NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(MINI_OPT_FIELD_FROM_JSON, __VA_ARGS__))     \
+  }
+
 NLOHMANN_JSON_SERIALIZE_ENUM(OptimizerState,
                              {{OptimizerState::ATTEMPTING_RESTORE_LM, "ATTEMPTING_RESTORE_LM"},
                               {OptimizerState::NOMINAL, "NOMINAL"}});
@@ -62,19 +114,19 @@ NLOHMANN_JSON_SERIALIZE_ENUM(QPNullSpaceTerminationState,
                               {QPNullSpaceTerminationState::NOT_POSITIVE_DEFINITE,
                                "NOT_POSITIVE_DEFINITE"}});
 
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(Errors, f, equality);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(QPEigenvalues, min, max, abs_min);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(DirectionalDerivatives, d_f, d_equality);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(LineSearchStep, alpha, errors);
+MINI_OPT_DEFINE_JSON(Errors, f, equality)
+MINI_OPT_DEFINE_JSON(QPEigenvalues, min, max, abs_min)
+MINI_OPT_DEFINE_JSON(DirectionalDerivatives, d_f, d_equality)
+MINI_OPT_DEFINE_JSON(LineSearchStep, alpha, errors)
 
 // QP structs:
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(AlphaValues, primal, dual);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(IPIterationOutputs, mu, alpha, alpha_probe, mu_affine);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(KKTError, r_dual, r_comp, r_primal_eq, r_primal_ineq);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(QPInteriorPointIteration, kkt_initial, kkt_final, ip_outputs);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(QPLagrangeMultipliers, min, l_infinity);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(QPInteriorPointSolverOutputs, termination_state, iterations,
-                                   lagrange_multipliers);
+MINI_OPT_DEFINE_JSON(AlphaValues, primal, dual)
+MINI_OPT_DEFINE_JSON(IPIterationOutputs, mu, alpha, alpha_probe, mu_affine)
+MINI_OPT_DEFINE_JSON(KKTError, r_dual, r_comp, r_primal_eq, r_primal_ineq)
+MINI_OPT_DEFINE_JSON(QPInteriorPointIteration, kkt_initial, kkt_final, ip_outputs)
+MINI_OPT_DEFINE_JSON(QPLagrangeMultipliers, min, l_infinity)
+MINI_OPT_DEFINE_JSON(QPInteriorPointSolverOutputs, termination_state, iterations,
+                     lagrange_multipliers)
 
 static void to_json(
     json& j, const std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>& var) {
@@ -100,11 +152,11 @@ struct adl_serializer<NLSIteration> {
   static NLSIteration from_json(const json& j) {
     return NLSIteration(
         j["iteration"].get<int>(), j["optimizer_state"].get<OptimizerState>(),
-        j["lambda"].get<double>(), j["errors_initial"].get<Errors>(),
+        NumberFromJson(j["lambda"]), j["errors_initial"].get<Errors>(),
         j["qp_outputs"]
             .get<std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>>(),
         j["qp_eigenvalues"].get<std::optional<QPEigenvalues>>(),
-        j["directional_derivatives"].get<DirectionalDerivatives>(), j["penalty"].get<double>(),
+        j["directional_derivatives"].get<DirectionalDerivatives>(), NumberFromJson(j["penalty"]),
         j["step_result"].get<StepSizeSelectionResult>(),
         j["line_search_steps"].get<std::vector<LineSearchStep>>());
   }
@@ -112,12 +164,12 @@ struct adl_serializer<NLSIteration> {
   static void to_json(json& j, const NLSIteration& iter) {
     j["iteration"] = iter.iteration;
     j["optimizer_state"] = iter.optimizer_state;
-    j["lambda"] = iter.lambda;
+    FieldToJson(j["lambda"], iter.lambda);
     j["errors_initial"] = iter.errors_initial;
     j["qp_outputs"] = iter.qp_outputs;
     j["qp_eigenvalues"] = iter.qp_eigenvalues;
     j["directional_derivatives"] = iter.directional_derivatives;
-    j["penalty"] = iter.penalty;
+    FieldToJson(j["penalty"], iter.penalty);
     j["step_result"] = iter.step_result;
     j["line_search_steps"] = iter.line_search_steps;
   }
-- 
2.43.0


From d5e14886ae09f1ef2d0f814842a5e5625513b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:15 +0000
Subject: [PATCH 12/12] fix: trace scopes entered and left normally during
 stack unwinding

---
 include/mini_opt/tracing.hpp | 7 ++++++-
 source/tracing.cc            | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/mini_opt/tracing.hpp b/include/mini_opt/tracing.hpp
index d308f17..38d5b4a 100644
--- a/include/mini_opt/tracing.hpp
+++ b/include/mini_opt/tracing.hpp
@@ -2,6 +2,7 @@
 // I copy-pasta'd this from the wrenfold project.
 #pragma once
 #include <chrono>
+#include <exception>
 #include <memory>
 #include <string_view>
 
@@ -68,7 +69,9 @@ class scoped_trace {
  public:
   // Note we do not own `name`. It is assumed to be a global string literal.
   explicit scoped_trace(const std::string_view name) noexcept
-      : name_(name), start_(std::chrono::high_resolution_clock::now()) {}
+      : name_(name),
+        uncaught_exceptions_(std::uncaught_exceptions()),
+        start_(std::chrono::high_resolution_clock::now()) {}
   ~scoped_trace();
 
   // non-copyable and non-moveable
@@ -79,6 +82,8 @@ class scoped_trace {
 
  private:
   std::string_view name_;
+  // Number of exceptions in flight when the scope was entered.
+  int uncaught_exceptions_;
   std::chrono::high_resolution_clock::time_point start_;
 };
 
diff --git a/source/tracing.cc b/source/tracing.cc
index f5d6bd6..4c94a26 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -119,7 +119,9 @@ static auto cast_time(const T& dur) {
 
 scoped_trace::~scoped_trace() {
   const auto end = std::chrono::high_resolution_clock::now();
-  if (std::uncaught_exceptions() > 0) {
+  // Skip the event only if this scope is being left by an exception: it may also be entered and left
+  // normally inside a destructor that runs while another exception is unwinding the stack.
+  if (std::uncaught_exceptions() > uncaught_exceptions_) {
     return;
   }
   if (trace_collector* const collector = trace_collector::get_instance(); collector != nullptr) {
-- 
2.43.0

