#pragma once
#include "qp.hpp"
// Re-run a solve step by step with the solver's own Iterate and compare the log with formulas evaluated here.
static bool same_err(const KKTError& a, const KKTError& b, double scale) {
  const double t = 1e-6 * (1 + scale);
  return std::abs(a.r_dual - b.r_dual) <= t && std::abs(a.r_comp - b.r_comp) <= 1e-5 * (1 + scale) && std::abs(a.r_primal_eq - b.r_primal_eq) <= t &&
         std::abs(a.r_primal_ineq - b.r_primal_ineq) <= t;
}
static bool borderline(double a, double tol) { return std::abs(a - tol) <= 1e-6 * tol + 1e-15; }
static void check_solve(const QP& q, const IPS::Params& p, bool c09, bool c10) {
  IPS s(&q), r(&q);
  if (p.initial_guess_method == InitialGuessMethod::USER_PROVIDED) {
    const VectorXd v = interior_point(q);
    s.SetVariables(v);
    r.SetVariables(v);
  }
  QPInteriorPointSolverOutputs out;
  try {
    out = s.Solve(p);
  } catch (const FailedFactorization&) {
    return;
  } catch (const std::exception& e) {
    if (breakdown(e)) return;
    fail(std::string("Solve raised ") + e.what());
  }
  if (!s.variables().allFinite()) return;  // floating-point breakdown
  r.ComputeInitialGuess(p);
  double mu = p.initialize_mu_with_complementarity ? avgcomp(q, r.variables()) : p.initial_mu;
  if (c09) {
    check(!out.iterations.empty() && (int)out.iterations.size() <= p.max_iterations, "number of log entries " + str(out.iterations.size()));
    check(out.lagrange_multipliers.has_value() == (q.A_eq.rows() > 0), "multiplier summary present");
    if (q.A_eq.rows() > 0) {
      check(out.lagrange_multipliers->min == s.y_block().minCoeff(), "smallest multiplier");
      check(out.lagrange_multipliers->l_infinity == s.y_block().cwiseAbs().maxCoeff(), "largest absolute multiplier");
    }
  }
  for (std::size_t k = 0; k < out.iterations.size(); ++k) {
    const auto& e = out.iterations[k];
    const VectorXd v0 = r.variables();
    if (split(q, v0).s.size() && (split(q, v0).s.minCoeff() < 1e-8 || split(q, v0).z.minCoeff() < 1e-8)) return;  // too close to the boundary to compare
    const double scale0 = v0.norm() + v0.cwiseProduct(v0).norm();
    if (c09) check(same_err(e.kkt_initial, errors(q, v0, mu), scale0), "entry " + str(k) + ": errors before the step (mu " + str(mu) + ")");
    IPIterationOutputs io;
    try { io = r.Iterate(mu, p.barrier_strategy); } catch (const std::exception&) { return; }
    const VectorXd v1 = r.variables();
    if (!v1.allFinite() || v1.norm() > 1e6) return;
    const double scale1 = v1.norm() + v1.cwiseProduct(v1).norm();
    if (c10) {
      check_near(e.ip_outputs.mu, io.mu, "entry " + str(k) + ": barrier value", 1e-6);
      check(e.ip_outputs.mu >= 0, "negative barrier value");
      check_near(e.ip_outputs.mu_affine, io.mu_affine, "entry " + str(k) + ": affine barrier value", 1e-6);
      const bool pc = p.barrier_strategy == BarrierStrategy::PREDICTOR_CORRECTOR && !q.constraints.empty();
      if (!pc) {
        check_near(e.ip_outputs.mu, mu, "entry " + str(k) + ": barrier value used", 1e-6);
        check(std::isnan(e.ip_outputs.mu_affine), "affine value without predictor");
      } else {
        const Pt a = split(q, r.delta_affine_), b = split(q, v0);
        const double aff = (b.s + io.alpha_probe.primal * a.s).dot(b.z + io.alpha_probe.dual * a.z) / b.s.size();
        check(std::abs(e.ip_outputs.mu_affine - std::max(aff, 0.0)) <= 1e-6 * (1 + std::abs(aff)), "entry " + str(k) + ": affine complementarity " + str(e.ip_outputs.mu_affine) + ", expected " + str(aff));
        const double want = mu * std::pow(std::max(aff, 0.0) / avgcomp(q, v0), 3);
        check(std::abs(e.ip_outputs.mu - want) <= 1e-5 * (1 + std::abs(want)), "entry " + str(k) + ": corrector barrier " + str(e.ip_outputs.mu) + ", expected " + str(want));
      }
    }
    if (c09) {
      check(near(e.ip_outputs.alpha.primal, io.alpha.primal, 1e-6) && near(e.ip_outputs.alpha.dual, io.alpha.dual, 1e-6), "entry " + str(k) + ": logged step fractions");
      check(same_err(e.kkt_final, errors(q, v1, mu), scale1), "entry " + str(k) + ": errors after the step");
    }
    const double me = maxerr(errors(q, v1, mu)), comp = avgcomp(q, v1);
    if (borderline(me, p.termination_kkt_tol) || borderline(comp, p.termination_complementarity_tol) || me < 1e-12) return;
    const bool stop = me < p.termination_kkt_tol && comp < p.termination_complementarity_tol;
    const bool last = k + 1 == out.iterations.size();
    if (c09) {
      check(!stop || last, "did not stop at iteration " + str(k));
      if (last) {
        check((out.termination_state == QPInteriorPointTerminationState::SATISFIED_KKT_TOL) == stop, "termination state " + str(int(out.termination_state)) + " at error " + str(me) + " complementarity " + str(comp));
        if (!stop) check((int)out.iterations.size() == p.max_iterations, "stopped early without meeting the tolerances");
        check((v1 - s.variables()).norm() <= 1e-6 * (1 + v1.norm()), "the log does not lead to the returned variables");
      }
    }
    if (std::abs(me - mu) <= 1e-6 * (1 + mu)) return;
    if (me <= mu || !p.decrease_mu_only_on_small_error) mu = p.barrier_strategy == BarrierStrategy::FIXED_DECREASE ? mu * p.sigma : p.sigma * comp;
  }
}
static IPS::Params gen_solve_params() {
  IPS::Params p = gen_params();
  if (ri(0, 5) == 0) p.initial_guess_method = InitialGuessMethod::USER_PROVIDED;
  if (ri(0, 3) == 0) { p.termination_kkt_tol = rd(0.01, 0.5); p.termination_complementarity_tol = rd(0.01, 0.5); p.max_iterations = 30; }
  return p;
}
