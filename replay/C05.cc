#include "qp.hpp"
int main(int argc, char** argv) {
  init(argc, argv);
  // an indefinite / singular system raises
  while (more()) {
    const QP q = gen_qp();
    IPS s(&q);
    const VectorXd v = interior_point(q);
    const double mu = rd(0, 2);
    context(show(q) + "variables=" + str(v.transpose()) + " mu=" + str(mu));
    nothrow("direction", [&] {
      s.SetVariables(v);
      s.H_.topLeftCorner(q.G.rows(), q.G.rows()).setConstant(3.5);
      s.EvaluateKKTConditions();
      s.ComputeLDLT();
      VectorXd aff = VectorXd::Zero(v.rows());
      if (rb()) {
        aff = rvec(v.rows(), 1);
        s.delta_affine_ = aff;
      }
      s.SolveForUpdate(mu);
      check(s.variables() == v, "direction changes the variables");
      check_newton(q, v, s.delta_, mu, aff, true, "direction");
      // a complete step of every strategy
      const auto strat = static_cast<BarrierStrategy>(ri(0, 2));
      s.delta_affine_ = rvec(v.rows(), 1);
      s.SetVariables(v);
      const auto out = s.Iterate(mu, strat);
      const bool pc = strat == BarrierStrategy::PREDICTOR_CORRECTOR && !q.constraints.empty();
      if (pc) check_newton(q, v, s.delta_affine_, 0, VectorXd::Zero(v.rows()), true, "affine step");
      check_newton(q, v, s.delta_, q.constraints.empty() ? 0 : out.mu, pc ? VectorXd(s.delta_affine_) : VectorXd(VectorXd::Zero(v.rows())), true, "applied step");
      // equality-constrained start
      s.SetVariables(v);
      s.ComputeLDLT(false);
      s.EvaluateKKTConditions(false);
      s.SolveForUpdateNoInequalities();
      check_newton(q, v, s.delta_, 0, v, false, "equality-constrained step");
    });
    // a system whose factorization fails raises instead of producing a direction
    QP bad;
    bad.G = MatrixXd::Zero(2, 2);
    bad.G(1, 0) = rd(0.5, 2);
    bad.c = rvec(2);
    bad.A_eq.resize(0, 2);
    bad.b_eq.resize(0);
    IPS t(&bad);
    t.SetVariables(rvec(2));
    bool ok = true, it = true;
    try { t.EvaluateKKTConditions(); t.ComputeLDLT(); } catch (const FailedFactorization&) { ok = false; }
    try { (void)t.Iterate(mu, BarrierStrategy::COMPLEMENTARITY); } catch (const FailedFactorization&) { it = false; }
    context(show(bad));
    check(!it, "Iterate with a failed factorization must raise FailedFactorization");
    check(!ok, "a failed factorization must raise FailedFactorization");
  }
  return 0;
}
