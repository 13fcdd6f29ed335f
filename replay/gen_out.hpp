// random solver logs
#pragma once
#include "common.hpp"
#include "mini_opt/structs.hpp"
static double rnum(bool special = true) {
  const int k = ri(0, special ? 24 : 19);
  switch (k) {
    case 20: return std::numeric_limits<double>::quiet_NaN();
    case 21: return std::numeric_limits<double>::infinity();
    case 22: return -std::numeric_limits<double>::infinity();
    case 23: return std::numeric_limits<double>::denorm_min();
    case 24: return -std::numeric_limits<double>::max();
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return rd(-1, 1) * 1e300;
    case 3: return rd(-1, 1) * 1e-300;
    case 4: return static_cast<double>(ri(-1000, 1000));
    default: return rd(-10, 10);
  }
}
static KKTError gen_kkt() { return KKTError{rnum(), rnum(), rnum(), rnum()}; }
static QPInteriorPointIteration gen_ip_iteration() {
  IPIterationOutputs o;
  o.mu = rnum();
  o.alpha = {rnum(), rnum()};
  if (rb()) {
    o.alpha_probe = {rnum(), rnum()};
    o.mu_affine = rnum();
  }
  return QPInteriorPointIteration(gen_kkt(), gen_kkt(), o);
}
static NLSIteration gen_iteration() {
  std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs> q = static_cast<QPNullSpaceTerminationState>(ri(0, 1));
  if (rb()) {
    std::vector<QPInteriorPointIteration> v;
    for (int i = ri(0, 4); i > 0; --i) v.push_back(gen_ip_iteration());
    std::optional<QPLagrangeMultipliers> m;
    if (rb()) m = QPLagrangeMultipliers{rnum(), rnum()};
    q = QPInteriorPointSolverOutputs(static_cast<QPInteriorPointTerminationState>(ri(0, 1)), v, m);
  }
  std::vector<LineSearchStep> steps;
  for (int i = ri(0, 4); i > 0; --i) steps.push_back(LineSearchStep{rnum(), Errors{rnum(), rnum()}});
  std::optional<QPEigenvalues> e;
  if (rb()) e = QPEigenvalues{rnum(), rnum(), rnum()};
  return NLSIteration(ri(-5, 1000), static_cast<OptimizerState>(ri(0, 1)), rnum(), Errors{rnum(), rnum()}, q, e,
                      DirectionalDerivatives{rnum(), rnum()}, rnum(), static_cast<StepSizeSelectionResult>(ri(0, 5)), steps);
}
static NLSSolverOutputs gen_outputs() {
  std::vector<NLSIteration> its;
  for (int i = ri(0, 5); i > 0; --i) its.push_back(gen_iteration());
  return NLSSolverOutputs(static_cast<NLSTerminationState>(ri(0, 6)), its);
}
