#include "qp.hpp"
int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) {
    const QP q = gen_qp();
    IPS s(&q);
    const VectorXd v = rb() ? interior_point(q) : rvec(s.variables().rows(), 3);
    s.SetVariables(v);
    const double mu = ri(0, 3) ? rd(-1, 3) : (q.constraints.empty() ? 1.0 : split(q, v).s[0] * split(q, v).z[0]);
    context(show(q) + "variables=" + str(v.transpose()) + " mu=" + str(mu));
    nothrow("residuals", [&] {
      s.r_.setConstant(7e3);
      s.EvaluateKKTConditions();
      const Pt e = residuals(q, v), r = split(q, s.r_);
      check((e.x - r.x).norm() < 1e-8 * (1 + e.x.norm()), "dual residual");
      check((e.s - r.s).norm() < 1e-8 * (1 + e.s.norm()), "complementarity residual");
      check((e.y - r.y).norm() < 1e-8 * (1 + e.y.norm()), "equality residual");
      check((e.z - r.z).norm() < 1e-8 * (1 + e.z.norm()), "bound residual");
      const KKTError a = s.ComputeErrors(mu), b = errors(q, v, mu);
      check_near(a.r_dual, b.r_dual, "r_dual", 1e-7);
      check_near(a.r_comp, b.r_comp, "r_comp", 1e-5);
      check_near(a.r_primal_eq, b.r_primal_eq, "r_primal_eq", 1e-7);
      check_near(a.r_primal_ineq, b.r_primal_ineq, "r_primal_ineq", 1e-7);
      check(!std::isnan(a.r_comp), "r_comp is NaN");
      if (q.constraints.empty()) check(a.r_comp == 0 && a.r_primal_ineq == 0, "errors without bounds");
      if (!q.A_eq.rows()) check(a.r_primal_eq == 0, "error without equality rows");
      check_near(a.Max(), maxerr(a), "Max()");
    });
  }
  // Max of arbitrary errors, and a complementarity error of exactly zero
  for (int i = 0; i < 1000; ++i) {
    KKTError e;
    e.r_dual = rd(0, 1); e.r_comp = rd(0, 1); e.r_primal_eq = rd(0, 1); e.r_primal_ineq = rd(0, 1);
    check(e.Max() == maxerr(e), "Max()");
  }
  for (int i = 0; i < 2000; ++i) {
    QP q(1);
    q.G(0, 0) = 1;
    const int m = ri(1, 6);
    for (int l = 0; l < m; ++l) q.constraints.emplace_back(0, 1.0, 1.0);
    IPS s(&q);
    VectorXd v(1 + 2 * m);
    const double mu = rd(0.1, 3);
    v.setOnes();
    for (int l = 0; l < m; ++l) { v[1 + l] = rd(0.1, 4); v[1 + m + l] = mu / v[1 + l]; }
    s.SetVariables(v);
    s.EvaluateKKTConditions();
    context("all products equal mu=" + str(mu));
    check(!std::isnan(s.ComputeErrors(mu).r_comp), "complementarity error is NaN");
  }
  return 0;
}
