// JSON round trip: outputs -> JSON text -> outputs, every field compared
#include "gen_out.hpp"
#include <cstring>
#include <set>
#include "mini_opt/serialization.hpp"
#include <nlohmann/json.hpp>
using json = nlohmann::json;
static void num(double a, double b, const char* what) {
  check((std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)), std::string(what) + ": " + str(a) + " came back as " + str(b));
}
template <typename E>
static void en(E a, E b, const char* what) { check(a == b, std::string(what) + ": " + str(static_cast<int>(a)) + " came back as " + str(static_cast<int>(b))); }
static void kkt(const KKTError& a, const KKTError& b, const char* w) {
  num(a.r_dual, b.r_dual, w); num(a.r_comp, b.r_comp, w); num(a.r_primal_eq, b.r_primal_eq, w); num(a.r_primal_ineq, b.r_primal_ineq, w);
}
static NLSSolverOutputs trip(const NLSSolverOutputs& o) { const json j = o; return json::parse(j.dump()).get<NLSSolverOutputs>(); }
static void compare(const NLSSolverOutputs& x, const NLSSolverOutputs& y) {
  en(x.termination_state, y.termination_state, "termination_state");
  check(x.iterations.size() == y.iterations.size(), "number of iterations");
  for (std::size_t i = 0; i < x.iterations.size(); ++i) {
    const auto &a = x.iterations[i], &b = y.iterations[i];
    check(a.iteration == b.iteration, "iteration");
    en(a.optimizer_state, b.optimizer_state, "optimizer_state");
    num(a.lambda, b.lambda, "lambda");
    num(a.errors_initial.f, b.errors_initial.f, "errors_initial.f");
    num(a.errors_initial.equality, b.errors_initial.equality, "errors_initial.equality");
    num(a.directional_derivatives.d_f, b.directional_derivatives.d_f, "d_f");
    num(a.directional_derivatives.d_equality, b.directional_derivatives.d_equality, "d_equality");
    num(a.penalty, b.penalty, "penalty");
    en(a.step_result, b.step_result, "step_result");
    check(a.qp_eigenvalues.has_value() == b.qp_eigenvalues.has_value(), "presence of qp_eigenvalues");
    if (a.qp_eigenvalues) {
      num(a.qp_eigenvalues->min, b.qp_eigenvalues->min, "eigenvalue min");
      num(a.qp_eigenvalues->max, b.qp_eigenvalues->max, "eigenvalue max");
      num(a.qp_eigenvalues->abs_min, b.qp_eigenvalues->abs_min, "eigenvalue abs_min");
    }
    check(a.line_search_steps.size() == b.line_search_steps.size(), "number of line search steps");
    for (std::size_t k = 0; k < a.line_search_steps.size(); ++k) {
      num(a.line_search_steps[k].alpha, b.line_search_steps[k].alpha, "step alpha");
      num(a.line_search_steps[k].errors.f, b.line_search_steps[k].errors.f, "step errors.f");
      num(a.line_search_steps[k].errors.equality, b.line_search_steps[k].errors.equality, "step errors.equality");
    }
    check(a.qp_outputs.index() == b.qp_outputs.index(), "QP alternative");
    if (const auto* p = std::get_if<QPInteriorPointSolverOutputs>(&a.qp_outputs)) {
      const auto& q = std::get<QPInteriorPointSolverOutputs>(b.qp_outputs);
      en(p->termination_state, q.termination_state, "QP termination_state");
      check(p->lagrange_multipliers.has_value() == q.lagrange_multipliers.has_value(), "presence of lagrange_multipliers");
      if (p->lagrange_multipliers) {
        num(p->lagrange_multipliers->min, q.lagrange_multipliers->min, "multiplier min");
        num(p->lagrange_multipliers->l_infinity, q.lagrange_multipliers->l_infinity, "multiplier l_infinity");
      }
      check(p->iterations.size() == q.iterations.size(), "number of QP iterations");
      for (std::size_t k = 0; k < p->iterations.size(); ++k) {
        const auto &c = p->iterations[k], &d = q.iterations[k];
        kkt(c.kkt_initial, d.kkt_initial, "kkt_initial");
        kkt(c.kkt_final, d.kkt_final, "kkt_final");
        num(c.ip_outputs.mu, d.ip_outputs.mu, "mu");
        num(c.ip_outputs.mu_affine, d.ip_outputs.mu_affine, "mu_affine");
        num(c.ip_outputs.alpha.primal, d.ip_outputs.alpha.primal, "alpha.primal");
        num(c.ip_outputs.alpha.dual, d.ip_outputs.alpha.dual, "alpha.dual");
        num(c.ip_outputs.alpha_probe.primal, d.ip_outputs.alpha_probe.primal, "alpha_probe.primal");
        num(c.ip_outputs.alpha_probe.dual, d.ip_outputs.alpha_probe.dual, "alpha_probe.dual");
      }
    } else {
      en(std::get<QPNullSpaceTerminationState>(a.qp_outputs), std::get<QPNullSpaceTerminationState>(b.qp_outputs), "null space termination state");
    }
  }
}
static NLSIteration one(OptimizerState o, StepSizeSelectionResult r, std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs> q) {
  return NLSIteration(3, o, 0.5, Errors{1, 2}, q, std::nullopt, DirectionalDerivatives{3, 4}, 5, r, {});
}
static std::string at(const NLSSolverOutputs& o, const char* p) { const json j = o; const json v = j.at(json::json_pointer(p)); check(v.is_string(), std::string(p) + " is stored as a name"); return v.get<std::string>(); }
int main(int argc, char** argv) {
  init(argc, argv);
  // distinct names for every enumerator
  std::set<std::string> s;
  for (int i = 0; i <= 6; ++i) check(s.insert(at(NLSSolverOutputs(static_cast<NLSTerminationState>(i), {}), "/termination_state")).second, "name of NLSTerminationState " + str(i));
  s.clear();
  for (int i = 0; i <= 5; ++i)
    check(s.insert(at(NLSSolverOutputs(NLSTerminationState::MAX_LAMBDA, {one(OptimizerState::NOMINAL, static_cast<StepSizeSelectionResult>(i), QPNullSpaceTerminationState::SUCCESS)}), "/iterations/0/step_result")).second, "name of StepSizeSelectionResult " + str(i));
  s.clear();
  for (int i = 0; i <= 1; ++i)
    check(s.insert(at(NLSSolverOutputs(NLSTerminationState::MAX_LAMBDA, {one(static_cast<OptimizerState>(i), StepSizeSelectionResult::SUCCESS, QPNullSpaceTerminationState::SUCCESS)}), "/iterations/0/optimizer_state")).second, "name of OptimizerState " + str(i));
  s.clear();
  for (int i = 0; i <= 1; ++i)
    check(s.insert(at(NLSSolverOutputs(NLSTerminationState::MAX_LAMBDA, {one(OptimizerState::NOMINAL, StepSizeSelectionResult::SUCCESS, static_cast<QPNullSpaceTerminationState>(i))}), "/iterations/0/qp_outputs")).second, "name of QPNullSpaceTerminationState " + str(i));
  s.clear();
  for (int i = 0; i <= 1; ++i)
    check(s.insert(at(NLSSolverOutputs(NLSTerminationState::MAX_LAMBDA, {one(OptimizerState::NOMINAL, StepSizeSelectionResult::SUCCESS, QPInteriorPointSolverOutputs(static_cast<QPInteriorPointTerminationState>(i), {}, std::nullopt))}), "/iterations/0/qp_outputs/termination_state")).second, "name of QPInteriorPointTerminationState " + str(i));
  while (more()) {
    const NLSSolverOutputs o = gen_outputs();
    context("log:\n" + json(o).dump());
    compare(o, trip(o));
  }
  return 0;
}
