// Random nonlinear problems with a reference model of their residuals, and a monitor that follows a solve iteration by
// iteration and compares the solver's state and log with the properties.
#pragma once
#include <memory>
#include "common.hpp"
#include "mini_opt/nonlinear.hpp"

using NLS = ConstrainedNonlinearLeastSquares;
enum : unsigned { P12 = 1, P13 = 2, P15 = 4, P16 = 8, P17 = 16, P18 = 32, P23 = 64, P24 = 128 };

// r(p) = c + A p + B (p .* p) + w sin(p_0)
struct Poly2 {
  VectorXd c, w;
  MatrixXd A, B;
  VectorXd value(const VectorXd& p, MatrixXd* J) const {
    VectorXd r = c + A * p + B * p.cwiseProduct(p) + w * std::sin(p[0]);
    if (J) {
      *J = A + 2.0 * B * p.asDiagonal().toDenseMatrix();
      J->col(0) += w * std::cos(p[0]);
    }
    return r;
  }
};
static Poly2 gen_poly(int R, int Pn) {
  Poly2 f;
  f.c = rvec(R, 2.0);
  f.A = rmat(R, Pn, 2.0);
  const int k = ri(0, 3);
  f.B = k == 0 ? MatrixXd::Zero(R, Pn).eval() : rmat(R, Pn, k == 1 ? 0.3 : 1.0);
  f.w = rb() ? rvec(R, 1.0) : VectorXd::Zero(R).eval();
  if (ri(0, 9) == 0) f.c.setZero();
  return f;
}
template <int R, int Pn>
struct Fn {
  Poly2 f;
  Eigen::Matrix<double, R, 1> operator()(const Eigen::Matrix<double, Pn, 1>& p, Eigen::Matrix<double, R, Pn>* J) const {
    MatrixXd Jd;
    const VectorXd r = f.value(p, J ? &Jd : nullptr);
    if (J) *J = Jd;
    return r;
  }
};
struct Ref {   // reference of one residual
  std::vector<int> idx;
  Poly2 f;
  int dim() const { return static_cast<int>(f.c.size()); }
  VectorXd value(const VectorXd& x, MatrixXd* J) const {
    VectorXd p(idx.size());
    for (size_t i = 0; i < idx.size(); ++i) p[i] = x[idx[i]];
    MatrixXd Jl;
    VectorXd r = f.value(p, J ? &Jl : nullptr);
    if (J) {
      *J = MatrixXd::Zero(r.size(), x.size());
      for (size_t i = 0; i < idx.size(); ++i) J->col(idx[i]) = Jl.col(i);
    }
    return r;
  }
};
struct NProb {
  Problem p;
  std::vector<Ref> costs, eqs;
};
static std::vector<int> gen_idx(int n, int k) {
  std::vector<int> all(n);
  for (int i = 0; i < n; ++i) all[i] = i;
  std::shuffle(all.begin(), all.end(), rng);
  all.resize(k);
  return all;
}
template <int R, int Pn>
static Residual mk(const std::vector<int>& idx, const Poly2& f) {
  if constexpr (Pn == Eigen::Dynamic) {
    return MakeResidual<R, Pn>(idx, Fn<R, Pn>{f});
  } else {
    std::array<int, Pn> a{};
    std::copy(idx.begin(), idx.end(), a.begin());
    return MakeResidual<R, Pn>(a, Fn<R, Pn>{f});
  }
}
static Residual gen_residual(int n, Ref* ref, bool small) {
  const int k = ri(0, small ? 2 : 5);
  int R, Pn;
  switch (k) {
    case 0: R = 1; Pn = 1; break;
    case 1: R = 1; Pn = 2; break;
    case 2: R = 1; Pn = -1; break;
    case 3: R = 2; Pn = 2; break;
    case 4: R = 3; Pn = -1; break;
    default: R = 2; Pn = 1; break;
  }
  const int m = std::min(n, Pn < 0 ? ri(1, n) : Pn);
  if (Pn > n) { R = 1; Pn = 1; }
  ref->idx = gen_idx(n, m);
  ref->f = gen_poly(R, m);
  if (R == 1 && Pn == 1) return mk<1, 1>(ref->idx, ref->f);
  if (R == 1 && Pn == 2) return mk<1, 2>(ref->idx, ref->f);
  if (R == 1) return mk<1, -1>(ref->idx, ref->f);
  if (R == 2 && Pn == 2) return mk<2, 2>(ref->idx, ref->f);
  if (R == 2) return mk<2, 1>(ref->idx, ref->f);
  return mk<3, -1>(ref->idx, ref->f);
}
// kind: 0 unconstrained, 1 equalities only, 2 bounds only, 3 both
static std::unique_ptr<NProb> gen_problem(int kind, VectorXd* x0) {
  auto q = std::make_unique<NProb>();
  const int n = ri(1, 5);
  q->p.dimension = n;
  *x0 = rvec(n, 2.0);
  const int C = ri(1, 4) + (n > 2 ? 2 : 0);
  for (int i = 0; i < C; ++i) {
    Ref r;
    q->p.costs.push_back(gen_residual(n, &r, false));
    q->costs.push_back(r);
  }
  if (rb())   // make the subproblem definite
    for (int i = 0; i < n; ++i) {
      Ref r;
      r.idx = {i};
      r.f.c = rvec(1); r.f.A = MatrixXd::Constant(1, 1, rd(0.3, 1.0)); r.f.B = MatrixXd::Zero(1, 1); r.f.w = VectorXd::Zero(1);
      q->p.costs.push_back(mk<1, 1>(r.idx, r.f));
      q->costs.push_back(r);
    }
  if (kind & 1) {
    const int E = n > 2 ? ri(1, 2) : 1;
    for (int i = 0; i < E; ++i) {
      Ref r;
      q->p.equality_constraints.push_back(gen_residual(n, &r, true));
      q->eqs.push_back(r);
    }
  }
  if (kind & 2) {
    const int B = ri(1, 3);
    for (int i = 0; i < B; ++i) {
      const int v = ri(0, n - 1);
      const double at = (*x0)[v], gap = ri(0, 3) == 0 ? 0.0 : rd(0.0, 1.5);
      const double s = rb() ? rd(0.3, 2.0) : 1.0;
      if (rb()) q->p.inequality_constraints.emplace_back(v, s, -s * (at - gap));   // x >= at - gap
      else q->p.inequality_constraints.emplace_back(v, -s, s * (at + gap));
    }
  }
  return q;
}
static NLS::Params gen_nls_params() {
  NLS::Params p;
  p.max_iterations = ri(0, 3) == 0 ? ri(0, 3) : ri(2, 12);
  p.max_qp_iterations = ri(0, 3) == 0 ? ri(1, 3) : 15;
  p.termination_kkt_tolerance = rb() ? 1e-6 : 1e-9;
  p.absolute_exit_tol = rb() ? 1e-12 : rd(1e-6, 0.5);
  p.relative_exit_tol = rb() ? 1e-5 : rd(0, 0.3);
  p.absolute_first_derivative_tol = rb() ? 1e-6 : rd(0, 0.2);
  p.max_line_search_iterations = ri(0, 5);
  p.line_search_strategy = rb() ? LineSearchStrategy::ARMIJO_BACKTRACK : LineSearchStrategy::POLYNOMIAL_APPROXIMATION;
  p.armijo_search_tau = rd(0.2, 0.9);
  p.equality_penalty_initial = rb() ? 1.0 : rd(0.01, 3.0);
  p.equality_penalty_scale_factor = rb() ? 1.01 : rd(1.0, 2.0);
  p.equality_penalty_rho = rb() ? 0.1 : rd(0.0, 0.9);
  p.min_lambda = rb() ? 0.0 : rd(0, 0.01);
  p.max_lambda = p.min_lambda + (rb() ? 1.0 : rd(0.0, 0.2));
  p.lambda_initial = rb() ? p.min_lambda : rd(p.min_lambda, p.max_lambda);
  p.lambda_failure_init = rb() ? 1e-2 : rd(0, 0.1);
  p.lambda_decrease_on_success = rb() ? 0.1 : rd(0, 0.99);
  p.lambda_decrease_on_restore = rb() ? 0.8 : rd(0, 0.99);
  p.log_qp_eigenvalues = rb();
  return p;
}
static std::string show(const NProb& q, const VectorXd& x0, const NLS::Params& p) {
  std::string s = "dimension " + str(q.p.dimension) + " x0 " + str(x0.transpose()) + "\n";
  auto one = [&](const char* k, const Ref& r) {
    s += std::string(k) + " idx";
    for (int i : r.idx) s += " " + str(i);
    s += " c " + str(r.f.c.transpose()) + " w " + str(r.f.w.transpose()) + " A\n" + str(r.f.A) + "\n B\n" + str(r.f.B) + "\n";
  };
  for (auto& r : q.costs) one("cost", r);
  for (auto& r : q.eqs) one("equality", r);
  for (auto& c : q.p.inequality_constraints) s += "bound var " + str(c.variable) + " a " + str(c.a) + " b " + str(c.b) + "\n";
  s += "max_iterations " + str(p.max_iterations) + " max_qp_iterations " + str(p.max_qp_iterations) + " strategy " + str(int(p.line_search_strategy)) +
       " line search " + str(p.max_line_search_iterations) + " tau " + str(p.armijo_search_tau) + " abs tol " + str(p.absolute_exit_tol) + " rel tol " + str(p.relative_exit_tol) +
       " first tol " + str(p.absolute_first_derivative_tol) + " kkt tol " + str(p.termination_kkt_tolerance) + " penalty " + str(p.equality_penalty_initial) + " x " + str(p.equality_penalty_scale_factor) + " rho " + str(p.equality_penalty_rho) +
       " lambda " + str(p.lambda_initial) + " in [" + str(p.min_lambda) + "," + str(p.max_lambda) + "] fail " + str(p.lambda_failure_init) + " success " + str(p.lambda_decrease_on_success) +
       " restore " + str(p.lambda_decrease_on_restore) + "\n";
  return s;
}

static Errors ref_errors(const NProb& q, const VectorXd& x) {
  Errors e{};
  for (auto& r : q.costs) e.f += 0.5 * r.value(x, nullptr).squaredNorm();
  for (auto& r : q.eqs) e.equality += r.value(x, nullptr).lpNorm<1>();
  return e;
}
static void ref_model(const NProb& q, const VectorXd& x, double lambda, MatrixXd* G, VectorXd* c, MatrixXd* A, VectorXd* b) {
  const int n = q.p.dimension;
  *G = MatrixXd::Zero(n, n); *c = VectorXd::Zero(n);
  for (auto& r : q.costs) {
    MatrixXd J;
    const VectorXd e = r.value(x, &J);
    *G += J.transpose() * J; *c += J.transpose() * e;
  }
  for (int i = 0; i < n; ++i) (*G)(i, i) += lambda;
  int K = 0;
  for (auto& r : q.eqs) K += r.dim();
  *A = MatrixXd::Zero(K, n); *b = VectorXd::Zero(K);
  int row = 0;
  for (auto& r : q.eqs) {
    MatrixXd J;
    const VectorXd e = r.value(x, &J);
    A->middleRows(row, r.dim()) = J; b->segment(row, r.dim()) = e;
    row += r.dim();
  }
}
static bool same_num(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static bool same_kkt(const KKTError& a, const KKTError& b) { return same_num(a.r_dual, b.r_dual) && same_num(a.r_comp, b.r_comp) && same_num(a.r_primal_eq, b.r_primal_eq) && same_num(a.r_primal_ineq, b.r_primal_ineq); }
static bool same_ip(const QPInteriorPointSolverOutputs& a, const QPInteriorPointSolverOutputs& b) {
  if (a.termination_state != b.termination_state || a.iterations.size() != b.iterations.size() || a.lagrange_multipliers.has_value() != b.lagrange_multipliers.has_value()) return false;
  if (a.lagrange_multipliers && !(same_num(a.lagrange_multipliers->min, b.lagrange_multipliers->min) && same_num(a.lagrange_multipliers->l_infinity, b.lagrange_multipliers->l_infinity))) return false;
  for (size_t i = 0; i < a.iterations.size(); ++i) {
    const auto &x = a.iterations[i], &y = b.iterations[i];
    if (!same_kkt(x.kkt_initial, y.kkt_initial) || !same_kkt(x.kkt_final, y.kkt_final) || !same_num(x.ip_outputs.mu, y.ip_outputs.mu) || !same_num(x.ip_outputs.mu_affine, y.ip_outputs.mu_affine) ||
        !same_num(x.ip_outputs.alpha.primal, y.ip_outputs.alpha.primal) || !same_num(x.ip_outputs.alpha.dual, y.ip_outputs.alpha.dual) ||
        !same_num(x.ip_outputs.alpha_probe.primal, y.ip_outputs.alpha_probe.primal) || !same_num(x.ip_outputs.alpha_probe.dual, y.ip_outputs.alpha_probe.dual)) return false;
  }
  return true;
}
static bool same_iter(const NLSIteration& a, const NLSIteration& b) {
  if (a.iteration != b.iteration || a.optimizer_state != b.optimizer_state || !same_num(a.lambda, b.lambda) || !same_num(a.errors_initial.f, b.errors_initial.f) || !same_num(a.errors_initial.equality, b.errors_initial.equality)) return false;
  if (a.qp_outputs.index() != b.qp_outputs.index()) return false;
  if (a.qp_outputs.index() == 0) { if (std::get<0>(a.qp_outputs) != std::get<0>(b.qp_outputs)) return false; }
  else if (!same_ip(std::get<1>(a.qp_outputs), std::get<1>(b.qp_outputs))) return false;
  if (a.qp_eigenvalues.has_value() != b.qp_eigenvalues.has_value()) return false;
  if (a.qp_eigenvalues && !(same_num(a.qp_eigenvalues->min, b.qp_eigenvalues->min) && same_num(a.qp_eigenvalues->max, b.qp_eigenvalues->max) && same_num(a.qp_eigenvalues->abs_min, b.qp_eigenvalues->abs_min))) return false;
  if (!same_num(a.directional_derivatives.d_f, b.directional_derivatives.d_f) || !same_num(a.directional_derivatives.d_equality, b.directional_derivatives.d_equality) || !same_num(a.penalty, b.penalty) || a.step_result != b.step_result) return false;
  if (a.line_search_steps.size() != b.line_search_steps.size()) return false;
  for (size_t i = 0; i < a.line_search_steps.size(); ++i) {
    const auto &x = a.line_search_steps[i], &y = b.line_search_steps[i];
    if (!same_num(x.alpha, y.alpha) || !same_num(x.errors.f, y.errors.f) || !same_num(x.errors.equality, y.errors.equality)) return false;
  }
  return true;
}
static bool same_out(const NLSSolverOutputs& a, const NLSSolverOutputs& b) {
  if (a.termination_state != b.termination_state || a.iterations.size() != b.iterations.size()) return false;
  for (size_t i = 0; i < a.iterations.size(); ++i)
    if (!same_iter(a.iterations[i], b.iterations[i])) return false;
  return true;
}

struct Expect {   // values after one iteration according to the rules
  double lambda;
  OptimizerState state;
  bool exit;
  NLSTerminationState term;
};
static Expect rules(const NLS::Params& p, StepSizeSelectionResult r, OptimizerState st, double lambda, const Errors& last, const Errors& e0, double pen) {
  Expect x{lambda, st, false, NLSTerminationState::MAX_ITERATIONS};
  const bool nominal = st == OptimizerState::NOMINAL;
  if (r == StepSizeSelectionResult::SUCCESS) {
    x.lambda = std::max(lambda * (nominal ? p.lambda_decrease_on_success : p.lambda_decrease_on_restore), p.min_lambda);
    x.state = OptimizerState::NOMINAL;
    if (std::max(last.f, last.equality) < p.absolute_exit_tol) x.exit = true, x.term = NLSTerminationState::SATISFIED_ABSOLUTE_TOL;
    else if (last.f + pen * last.equality > (e0.f + pen * e0.equality) * (1 - p.relative_exit_tol)) x.exit = true, x.term = NLSTerminationState::SATISFIED_RELATIVE_TOL;
  } else if (r == StepSizeSelectionResult::FIRST_ORDER_SATISFIED) {
    x.exit = true; x.term = NLSTerminationState::SATISFIED_FIRST_ORDER_TOL;
  } else if (r == StepSizeSelectionResult::MAX_ITERATIONS || r == StepSizeSelectionResult::POSITIVE_DERIVATIVE) {
    x.lambda = nominal ? std::max(p.lambda_failure_init, lambda * 10) : lambda * 10;
    x.state = OptimizerState::ATTEMPTING_RESTORE_LM;
    if (x.lambda > p.max_lambda) x.exit = true, x.term = NLSTerminationState::MAX_LAMBDA;
  }
  return x;
}

// Follows one solve.  The callback sees the solver's private state right after every iteration.
struct Monitor {
  const NProb& q;
  const NLS::Params& p;
  unsigned mask;
  int stop_at = -1;          // callback refuses this iteration
  bool custom = false;
  VectorXd x;                // variables before the iteration
  double lambda, penalty;
  OptimizerState state = OptimizerState::NOMINAL;
  bool ended = false;
  NLSTerminationState term{};
  std::vector<NLSIteration> seen;
  NLS* s = nullptr;
  bool inside0 = false;

  Monitor(const NProb& q_, const NLS::Params& p_, unsigned m, const VectorXd& x0) : q(q_), p(p_), mask(m), x(x0), lambda(p_.lambda_initial), penalty(p_.equality_penalty_initial) {
    inside0 = inside(x0, 0.0);
  }
  bool inside(const VectorXd& v, double tol) const {
    for (auto& c : q.p.inequality_constraints)
      if (!(c.a * v[c.variable] + c.b >= -tol)) return false;
    return true;
  }
  VectorXd retract(const VectorXd& v, const VectorXd& d, double a) const {
    VectorXd r = v + a * d;
    if (custom) r *= 1.0 + 0.01 * a;
    return r;
  }
  bool operator()(const NLSIteration& it) {
    const int k = static_cast<int>(seen.size());
    if (mask & P16) {
      check(!ended, "iteration logged after an exit condition");
      check(it.iteration == k, "iteration number " + str(it.iteration) + " in log entry " + str(k));
      check(k < p.max_iterations, "more iterations than allowed");
    }
    seen.push_back(it);
    const double tol = 1e-9;
    const Errors e0 = ref_errors(q, x);
    MatrixXd G, A; VectorXd c, b;
    ref_model(q, x, lambda, &G, &c, &A, &b);
    const QP& qp = s->qp_;
    if (mask & (P12 | P16)) {
      check_near(it.errors_initial.f, e0.f, "cost at the linearization point");
      check_near(it.errors_initial.equality, e0.equality, "constraint norm at the linearization point");
    }
    if (mask & P12) {
      check(qp.G.rows() == G.rows() && qp.A_eq.rows() == A.rows(), "subproblem has the wrong size");
      for (int i = 0; i < G.rows(); ++i)
        for (int j = 0; j <= i; ++j) check_near(qp.G(i, j), G(i, j), "subproblem G(" + str(i) + "," + str(j) + ")");
      for (int i = 0; i < c.rows(); ++i) check_near(qp.c[i], c[i], "subproblem c");
      for (int i = 0; i < A.rows(); ++i) {
        check_near(qp.b_eq[i], b[i], "equality residual row " + str(i));
        for (int j = 0; j < A.cols(); ++j) check_near(qp.A_eq(i, j), A(i, j), "equality Jacobian (" + str(i) + "," + str(j) + ")");
      }
      check(qp.constraints.size() == q.p.inequality_constraints.size(), "one shifted bound per bound: " + str(qp.constraints.size()));
      for (size_t l = 0; l < qp.constraints.size(); ++l) {
        const auto &u = qp.constraints[l], &v = q.p.inequality_constraints[l];
        check(u.variable == v.variable && near(u.a, v.a) && near(u.b, v.a * x[v.variable] + v.b), "shifted bound " + str(l));
      }
      const Errors ev = s->EvaluateNonlinearErrors(x);
      check(near(ev.f, it.errors_initial.f) && near(ev.equality, it.errors_initial.equality), "linearization and evaluation disagree about the errors");
    }
    const VectorXd d = s->dx_;
    const double df = c.dot(d);
    double de = 0, scale = 0;
    bool kink = false;
    for (int i = 0; i < A.rows(); ++i) {
      if (std::abs(b[i]) < 1e-12) kink = true;
      de += (b[i] > 0 ? 1 : b[i] < 0 ? -1 : 0) * A.row(i).dot(d);
      scale += A.row(i).cwiseAbs().dot(d.cwiseAbs());
    }
    const double fs = c.cwiseAbs().dot(d.cwiseAbs());
    if (mask & P17) {
      check(std::abs(it.directional_derivatives.d_f - df) <= 1e-9 * (1 + fs) || !std::isfinite(df), "derivative of the cost: got " + str(it.directional_derivatives.d_f) + ", expected " + str(df));
      if (!kink) check(std::abs(it.directional_derivatives.d_equality - de) <= 1e-9 * (1 + scale) || !std::isfinite(de), "derivative of the constraint norm: got " + str(it.directional_derivatives.d_equality) + ", expected " + str(de));
      double want = penalty, np = 0;
      if (!q.eqs.empty()) {
        if (it.qp_outputs.index() == 1) {
          const auto& ip = std::get<1>(it.qp_outputs);
          check(ip.lagrange_multipliers.has_value(), "the interior-point solver reports multipliers");
          np = ip.lagrange_multipliers->l_infinity;
          double linf = 0;
          const auto& qs = std::get<QPInteriorPointSolver>(s->solver_);
          if (qs.y_block().rows() > 0) linf = qs.y_block().cwiseAbs().maxCoeff();
          check_near(np, linf, "largest multiplier");
        } else {
          const double l1 = std::max(b.lpNorm<1>(), std::numeric_limits<double>::epsilon());
          const MatrixXd Gs = G.selfadjointView<Eigen::Lower>();
          np = (df + 0.5 * std::max(0.0, d.dot(Gs * d))) / ((1 - p.equality_penalty_rho) * l1);
        }
        if (np > penalty) want = np * p.equality_penalty_scale_factor;
        if (std::isfinite(np)) {
          check(it.penalty >= penalty, "the penalty decreased from " + str(penalty) + " to " + str(it.penalty));
          const double cond = b.size() ? fs / std::max(b.lpNorm<1>(), 1e-16) : 0;
          if (!near(np, penalty, 1e-6)) check(std::abs(it.penalty - want) <= 1e-7 * (1 + std::abs(want)) + 1e-9 * cond, "penalty: got " + str(it.penalty) + ", expected " + str(want));
        }
      } else {
        check(it.penalty == penalty, "penalty changed without equality constraints");
      }
    }
    penalty = it.penalty;
    const auto& st = it.line_search_steps;
    const auto R = it.step_result;
    const double D = it.directional_derivatives.d_f + penalty * it.directional_derivatives.d_equality;
    if (mask & (P13 | P24 | P16)) {
      if (mask & (P13 | P16)) check(!st.empty() && int(st.size()) <= p.max_line_search_iterations + 1, "number of line search steps " + str(st.size()));
      double prev = 2;
      for (size_t i = 0; i < st.size(); ++i) {
        const VectorXd cand = retract(x, d, st[i].alpha);
        if (mask & P13) {
          if (i == 0) check(st[i].alpha == 1.0, "the first step size is " + str(st[i].alpha));
          check(st[i].alpha > 0 && st[i].alpha <= 1 && st[i].alpha < prev, "step sizes do not decrease inside (0, 1]: " + str(st[i].alpha));
          if (i > 0 && p.line_search_strategy == LineSearchStrategy::ARMIJO_BACKTRACK) check_near(st[i].alpha, prev * p.armijo_search_tau, "backtracking step size");
        }
        if (mask & (P13 | P16)) {
          const Errors e = ref_errors(q, cand);
          check(near(e.f, st[i].errors.f, 1e-8) && near(e.equality, st[i].errors.equality, 1e-8) , "errors logged for step " + str(st[i].alpha) + " are not those of the candidate");
        }
        if ((mask & P24) && inside0 && !custom && d.allFinite() && d.cwiseAbs().maxCoeff() < 1e4) check(inside(cand, 1e-7 * (1 + cand.cwiseAbs().maxCoeff())), "line search evaluated a point outside the bounds: " + str(cand.transpose()));
        prev = st[i].alpha;
      }
    }
    const auto armijo = [&](size_t i) { return st[i].errors.Total(penalty) <= it.errors_initial.Total(penalty) + D * st[i].alpha * 1e-4; };
    const double dlim = std::max(std::abs(it.directional_derivatives.d_f), std::abs(it.directional_derivatives.d_equality));
    if (mask & P13) {
      const bool finite_last = std::isfinite(st.back().errors.f) && std::isfinite(st.back().errors.equality);
      for (size_t i = 0; i + 1 < st.size(); ++i) check(!armijo(i) && std::isfinite(st[i].errors.f), "an acceptable step was passed over");
      if (R == StepSizeSelectionResult::SUCCESS) {
        check(finite_last && armijo(st.size() - 1), "accepted a step without sufficient decrease");
        check(D <= 0, "accepted a step along a direction of increase");
        for (auto& cst : st) check(std::isfinite(cst.errors.f), "accepted with a non-finite cost");
      } else if (R == StepSizeSelectionResult::FIRST_ORDER_SATISFIED) check(dlim < p.absolute_first_derivative_tol, "reported a stationary point with derivative " + str(dlim));
      else if (R == StepSizeSelectionResult::POSITIVE_DERIVATIVE) check(D > 0, "reported a positive derivative: " + str(D));
      else if (R == StepSizeSelectionResult::FAILURE_NON_FINITE_COST) check(!finite_last, "reported a non-finite cost");
      else if (R == StepSizeSelectionResult::MAX_ITERATIONS) check(int(st.size()) == p.max_line_search_iterations + 1 && !armijo(st.size() - 1), "reported exhausted attempts after " + str(st.size()) + " steps");
      else check(p.line_search_strategy == LineSearchStrategy::POLYNOMIAL_APPROXIMATION && int(st.size()) <= p.max_line_search_iterations, "reported an invalid step size");
    }
    const Expect ex = rules(p, R, state, lambda, st.empty() ? Errors{} : st.back().errors, it.errors_initial, penalty);
    const VectorXd xn = R == StepSizeSelectionResult::SUCCESS ? retract(x, d, st.back().alpha) : x;
    if (mask & P15) {
      check((s->variables_ - xn).cwiseAbs().maxCoeff() <= 1e-12 * (1 + xn.cwiseAbs().maxCoeff()), R == StepSizeSelectionResult::SUCCESS ? "the variables are not the accepted candidate" : "the variables moved without an accepted step");
      check(it.optimizer_state == ex.state, "recovery mode after the iteration");
      check(s->state_ == ex.state, "recovery mode of the solver");
      if (R == StepSizeSelectionResult::SUCCESS) {
        const Errors e1 = ref_errors(q, s->variables_);
        check(e1.Total(penalty) <= it.errors_initial.Total(penalty) + 1e-9 * (1 + it.errors_initial.Total(penalty)), "the merit value increased");
      }
    }
    if (mask & (P15 | P16)) check(it.lambda == lambda, "lambda in the log: got " + str(it.lambda) + ", expected " + str(lambda));
    if (mask & P16) {
      check(it.qp_eigenvalues.has_value() == p.log_qp_eigenvalues, "eigenvalues are logged exactly when configured");
      if (it.qp_eigenvalues && G.allFinite()) {
        const MatrixXd Gs = G.selfadjointView<Eigen::Lower>();
        Eigen::SelfAdjointEigenSolver<MatrixXd> es(Gs);
        const double sc = 1e-7 * (1 + Gs.cwiseAbs().maxCoeff());
        check(std::abs(it.qp_eigenvalues->min - es.eigenvalues().minCoeff()) < sc && std::abs(it.qp_eigenvalues->max - es.eigenvalues().maxCoeff()) < sc &&
                  std::abs(it.qp_eigenvalues->abs_min - es.eigenvalues().cwiseAbs().minCoeff()) < sc, "logged eigenvalues");
      }
      const bool null_case = q.p.inequality_constraints.empty() && !q.eqs.empty();
      check((it.qp_outputs.index() == 0) == null_case, "null-space solver exactly for equality constraints without bounds");
      if (null_case) check(std::get<0>(it.qp_outputs) == QPNullSpaceTerminationState::SUCCESS, "an iteration with an indefinite subproblem was logged");
    }
    x = s->variables_;
    lambda = ex.lambda; state = ex.state;
    if (d.allFinite() && d.cwiseAbs().maxCoeff() >= 1e4) inside0 = false;
    if ((mask & P24) && inside0 && !custom) check(inside(x, 1e-7 * (1 + x.cwiseAbs().maxCoeff())), "variables outside the bounds: " + str(x.transpose()));
    const bool refuse = k == stop_at;
    if (ex.exit) ended = true, term = ex.term;
    else if (refuse) ended = true, term = NLSTerminationState::USER_CALLBACK;
    return !refuse;
  }
  void finish(const NLSSolverOutputs& out) {
    if (mask & P16) {
      check(out.iterations.size() == seen.size(), "the callback saw " + str(seen.size()) + " of " + str(out.iterations.size()) + " iterations");
      for (size_t i = 0; i < seen.size(); ++i) check(same_iter(seen[i], out.iterations[i]), "the callback was shown something else than the log, iteration " + str(i));
    }
    if (mask & (P15 | P16)) {
      if (ended) check(out.termination_state == term, "termination state " + str(int(out.termination_state)) + ", expected " + str(int(term)));
      else if (out.termination_state == NLSTerminationState::MAX_ITERATIONS) check(int(seen.size()) == p.max_iterations, "iteration limit reported after " + str(seen.size()) + " iterations");
      else check(out.termination_state == NLSTerminationState::QP_INDEFINITE && q.p.inequality_constraints.empty() && !q.eqs.empty(), "termination state " + str(int(out.termination_state)) + " without reason");
      check((s->variables() - x).norm() == 0, "the variables changed after the last iteration");
      if (out.termination_state == NLSTerminationState::QP_INDEFINITE && (mask & P16)) {
        QPNullSpaceSolver fresh;
        check(fresh.Solve(s->qp_) == QPNullSpaceTerminationState::NOT_POSITIVE_DEFINITE, "reported an indefinite subproblem");
      }
    }
  }
};
static const NLS::Retraction scaled = [](VectorXd& x, ConstVectorBlock dx, double a) {
  x += dx * a;
  x *= 1.0 + 0.01 * a;
};
static void run_monitored(unsigned mask) {
  VectorXd x0;
  const auto q = gen_problem(ri(0, 3), &x0);
  const auto p = gen_nls_params();
  context(show(*q, x0, p));
  const bool custom = ri(0, 3) == 0 && !(mask & P24);
  NLS s(&q->p, custom ? scaled : NLS::Retraction{});
  const int rounds = ri(1, 2);
  for (int i = 0; i < rounds; ++i) {
    Monitor m(*q, p, mask, x0);
    m.s = &s;
    m.custom = custom;
    m.stop_at = ri(0, 3) == 0 ? ri(0, 3) : -1;
    s.SetUserExitCallback([&](const NLSIteration& it) { return m(it); });
    try {
      const auto out = s.Solve(p, x0);
      m.finish(out);
    } catch (const std::exception&) {
      // non-finite errors at the linearization point, or a failed factorization
    }
    s.SetUserExitCallback(nullptr);
  }
}
