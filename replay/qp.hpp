#pragma once
#include "common.hpp"

using IPS = QPInteriorPointSolver;

static std::string show(const QP& q) {
  std::ostringstream s;
  s.precision(17);
  s << "G=\n" << q.G << "\nc=" << q.c.transpose() << "\nA_eq=\n" << q.A_eq << "\nb_eq=" << q.b_eq.transpose() << "\n";
  for (const auto& c : q.constraints) s << "bound: " << c.a << " * x[" << c.variable << "] + " << c.b << " >= 0\n";
  return s.str();
}

// full symmetric matrix the solver is supposed to read from the lower triangle
static MatrixXd sym(const MatrixXd& G) {
  MatrixXd S = G;
  for (int i = 0; i < G.rows(); ++i)
    for (int j = i + 1; j < G.cols(); ++j) S(i, j) = G(j, i);
  return S;
}

struct GenOpts {
  int max_n = 5, max_m = 7;
  bool eq = true, bounds = true, min_n = 1;
  bool consistent_feasible = true;
};

// positive definite G (garbage above the diagonal), full-rank A_eq, jointly satisfiable bounds (several per variable)
static QP gen_qp(const GenOpts& o = {}) {
  const int N = ri(1, o.max_n);
  const int K = (o.eq && N > 1) ? ri(0, N - 1) : 0;
  const int M = o.bounds ? ri(0, o.max_m) : 0;
  QP q;
  MatrixXd B = rmat(N, N);
  q.G = B * B.transpose() + MatrixXd::Identity(N, N) * rd(0.3, 2.0);
  for (int i = 0; i < N; ++i)
    for (int j = i + 1; j < N; ++j) q.G(i, j) = rd(-50, 50);
  q.c = rvec(N, 3.0);
  if (K > 0) {
    for (;;) {
      q.A_eq = rmat(K, N);
      Eigen::JacobiSVD<MatrixXd> svd(q.A_eq);
      if (svd.singularValues().minCoeff() > 0.2) break;
    }
    q.b_eq = rvec(K, 0.5);
  }
  const VectorXd w = rvec(N, 1.0);  // satisfies all bounds
  for (int l = 0; l < M; ++l) {
    const int v = ri(0, N - 1);
    static const double as[] = {1, -1, 0.5, -0.5, 2, -3};
    const double a = as[ri(0, 5)];
    const double slack = ri(0, 4) == 0 ? 0.0 : rd(0, 2);
    q.constraints.emplace_back(v, a, slack - a * w[v]);
    if (slack == 0.0) q.constraints.back().b = -a * w[v];
  }
  return q;
}

struct Pt {
  VectorXd x, s, y, z;
};
static Pt split(const QP& q, const VectorXd& v) {
  const int N = q.G.rows(), M = q.constraints.size(), K = q.A_eq.rows();
  return {v.segment(0, N), v.segment(N, M), v.segment(N + M, K), v.segment(N + M + K, M)};
}

// the four residual groups, mu = 0
static Pt residuals(const QP& q, const VectorXd& v) {
  const Pt p = split(q, v);
  Pt r;
  r.x = sym(q.G) * p.x + q.c;
  if (q.A_eq.rows() > 0) r.x -= q.A_eq.transpose() * p.y;
  r.s = p.s.cwiseProduct(p.z);
  r.y = q.A_eq.rows() > 0 ? VectorXd(q.A_eq * p.x + q.b_eq) : VectorXd(0);
  r.z.resize(q.constraints.size());
  for (std::size_t l = 0; l < q.constraints.size(); ++l) {
    const auto& c = q.constraints[l];
    r.x[c.variable] -= c.a * p.z[l];
    r.z[l] = c.a * p.x[c.variable] + c.b - p.s[l];
  }
  return r;
}
static KKTError errors(const QP& q, const VectorXd& v, double mu) {
  const Pt r = residuals(q, v);
  KKTError e;
  e.r_dual = r.x.norm();
  e.r_comp = (r.s.array() - mu).matrix().norm();
  e.r_primal_eq = r.y.norm();
  e.r_primal_ineq = r.z.norm();
  return e;
}
static double maxerr(const KKTError& e) {
  return std::max(std::max(e.r_dual, e.r_comp), std::max(e.r_primal_eq, e.r_primal_ineq));
}
static double avgcomp(const QP& q, const VectorXd& v) {
  const Pt p = split(q, v);
  return p.s.size() ? p.s.dot(p.z) / p.s.size() : 0.0;
}
static VectorXd interior_point(const QP& q) {
  const int N = q.G.rows(), M = q.constraints.size(), K = q.A_eq.rows();
  VectorXd v = rvec(N + 2 * M + K, 2.0);
  for (int l = 0; l < M; ++l) {
    v[N + l] = std::exp(rd(-3, 1.5));
    v[N + M + K + l] = std::exp(rd(-3, 1.5));
  }
  return v;
}
static IPS::Params gen_params() {
  IPS::Params p;
  p.initial_mu = std::exp(rd(-3, 1));
  p.sigma = rb() ? 1.0 : rd(0.05, 1.0);
  if (ri(0, 3)) p.sigma = rd(0.05, 0.9);
  p.termination_kkt_tol = std::pow(10.0, -ri(2, 9));
  p.termination_complementarity_tol = std::pow(10.0, -ri(1, 6));
  p.max_iterations = ri(1, 14);
  p.barrier_strategy = static_cast<BarrierStrategy>(ri(0, 2));
  p.decrease_mu_only_on_small_error = ri(0, 2) == 0;
  p.initialize_mu_with_complementarity = rb();
  p.initial_guess_method = rb() ? InitialGuessMethod::NAIVE : InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED;
  return p;
}
static std::string show(const IPS::Params& p) {
  std::ostringstream s;
  s.precision(17);
  s << "params: initial_mu=" << p.initial_mu << " sigma=" << p.sigma << " kkt_tol=" << p.termination_kkt_tol
    << " comp_tol=" << p.termination_complementarity_tol << " max_iterations=" << p.max_iterations
    << " strategy=" << int(p.barrier_strategy) << " cautious=" << p.decrease_mu_only_on_small_error
    << " guess=" << int(p.initial_guess_method) << " mu_from_comp=" << p.initialize_mu_with_complementarity << "\n";
  return s.str();
}

// check that d solves the Newton system at v
static void check_newton(const QP& q, const VectorXd& v, const VectorXd& d, double mu, const VectorXd& aff, bool ineq, const std::string& what) {
  const Pt p = split(q, v), e = split(q, d), a = split(q, aff), r = residuals(q, v);
  const double scale = 1 + d.norm() + v.norm();
  const double tol = 1e-6;
  VectorXd row = sym(q.G) * e.x;
  if (q.A_eq.rows() > 0) row -= q.A_eq.transpose() * e.y;
  VectorXd rx = r.x;
  if (ineq)
    for (std::size_t l = 0; l < q.constraints.size(); ++l) row[q.constraints[l].variable] -= q.constraints[l].a * e.z[l];
  else
    for (std::size_t l = 0; l < q.constraints.size(); ++l) rx[q.constraints[l].variable] += q.constraints[l].a * p.z[l];
  double mag = 1 + e.z.size() * (e.z.size() ? e.z.cwiseAbs().maxCoeff() : 0.0) + (q.G.size() ? sym(q.G).norm() * e.x.norm() : 0.0);
  check((row + rx).norm() <= tol * (scale + mag), what + ": dual row off by " + str((row + rx).norm()));
  if (q.A_eq.rows() > 0) check((q.A_eq * e.x + r.y).norm() <= tol * scale, what + ": equality row");
  if (!ineq) return;
  for (std::size_t l = 0; l < q.constraints.size(); ++l) {
    const double lhs = p.z[l] * e.s[l] + p.s[l] * e.z[l] + p.s[l] * p.z[l] + a.s[l] * a.z[l] - mu;
    check(std::abs(lhs) <= tol * (1 + std::abs(p.z[l] * e.s[l]) + std::abs(p.s[l] * e.z[l]) + std::abs(a.s[l] * a.z[l]) + std::abs(mu)),
          what + ": complementarity row " + str(l) + " off by " + str(lhs));
    const auto& c = q.constraints[l];
    check(std::abs(c.a * e.x[c.variable] - e.s[l] + r.z[l]) <= tol * scale, what + ": bound row " + str(l));
  }
}
static double max_fraction(const VectorXd& v, const VectorXd& d, double tau) {
  double al = 1.0;
  for (int i = 0; i < v.size(); ++i)
    if (d[i] < 0 && v[i] + d[i] < (1 - tau) * v[i]) al = std::min(al, -tau * v[i] / d[i]);
  return al;
}
static bool all_feasible(const QP& q, const VectorXd& x, double tol) {
  for (const auto& c : q.constraints)
    if (c.a * x[c.variable] + c.b < -tol * (1 + std::abs(c.b))) return false;
  return true;
}
// floating-point breakdown (0/0 after the iterates have converged to machine precision) is outside the exact-arithmetic claims
static bool breakdown(const std::exception& e) {
  const std::string w = e.what();
  return w.find("nan") != std::string::npos || w.find("inf") != std::string::npos;
}
