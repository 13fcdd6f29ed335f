#include "qp.hpp"
static void check_alpha(const VectorXd& val, const VectorXd& d, double tau, double al, const std::string& what) {
  check(al > 0 && al <= 1, what + ": fraction outside (0,1]: " + str(al));
  check_near(al, max_fraction(val, d, tau), what + ": not the largest admissible fraction", 1e-9);
  for (int i = 0; i < val.size(); ++i)
    check(val[i] + al * d[i] >= (1 - tau) * val[i] - 1e-9 * (1 + val[i]), what + ": component " + str(i) + " falls too far");
}
int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) {
    {
      const int n = ri(1, 6), off = ri(0, 3);
      VectorXd val(n + off), d = rvec(n + off, 3);
      for (int i = 0; i < val.size(); ++i) val[i] = std::exp(rd(-4, 2));
      const double tau = ri(0, 1) ? 0.995 : ri(0, 1) ? 1.0 : rd(0.05, 1);
      for (int i = 0; i < val.size(); ++i)
        if (ri(0, 2) == 0) d[i] = -val[i] * (ri(0, 1) ? rd(tau * 0.9, 1.1) : rd(0.99, 1.0));
      const ConstVectorBlock bv(val, off, n), bd(d, off, n);
      context("val=" + str(val.tail(n).transpose()) + " d=" + str(d.tail(n).transpose()) + " tau=" + str(tau));
      nothrow("ComputeAlpha", [&] { check_alpha(val.tail(n), d.tail(n), tau, IPS::ComputeAlpha(bv, bd, tau), "ComputeAlpha"); });
    }
    const QP q = gen_qp();
    IPS s(&q);
    VectorXd v = interior_point(q);
    s.SetVariables(v);
    const auto strat = static_cast<BarrierStrategy>(ri(0, 2));
    const double mu = rd(0, 2);
    const int steps = ri(1, 6);
    for (int k = 0; k < steps; ++k) {
      v = s.variables();
      context(show(q) + "variables=" + str(v.transpose()) + " mu=" + str(mu) + " strategy=" + str(int(strat)));
      IPIterationOutputs out;
      bool ok = true;
      try { out = s.Iterate(mu, strat); } catch (const FailedFactorization&) { ok = false; }
      catch (const std::exception& e) { if (!breakdown(e)) fail(std::string("Iterate raised ") + e.what()); }
      if (!ok) break;
      const Pt p = split(q, v), d = split(q, s.delta_), n = split(q, s.variables());
      if (q.constraints.empty()) {
        check(out.alpha.primal == 1 && out.alpha.dual == 1, "without bounds the fractions are one");
      } else {
        check_alpha(p.s, d.s, 0.995, out.alpha.primal, "primal fraction");
        check_alpha(p.z, d.z, 0.995, out.alpha.dual, "dual fraction");
        check(n.s.minCoeff() > 0, "slack not positive");
        check(n.z.minCoeff() > 0, "multiplier not positive");
        if (strat == BarrierStrategy::PREDICTOR_CORRECTOR) {
          const Pt a = split(q, s.delta_affine_);
          check_near(out.alpha_probe.primal, max_fraction(p.s, a.s, 1.0), "probed primal fraction");
          check_near(out.alpha_probe.dual, max_fraction(p.z, a.z, 1.0), "probed dual fraction");
        }
      }
      const double t = 1e-9 * (1 + v.norm() + s.delta_.norm());
      check((n.x - (p.x + out.alpha.primal * d.x)).norm() <= t, "x step");
      check((n.s - (p.s + out.alpha.primal * d.s)).norm() <= t, "s step");
      check((n.y - (p.y + out.alpha.dual * d.y)).norm() <= t, "y step");
      check((n.z - (p.z + out.alpha.dual * d.z)).norm() <= t, "z step");
      if (!q.constraints.empty() && (n.s.minCoeff() < 1e-10 || n.z.minCoeff() < 1e-10)) break;
    }
    // built-in initial guesses provide positive slacks and multipliers, through whole solves
    auto pr = gen_params();
    context(show(q) + show(pr));
    try {
      IPS t(&q);
      (void)t.Solve(pr);
      if (!q.constraints.empty() && t.variables().allFinite()) check(t.s_block().minCoeff() > 0 && t.z_block().minCoeff() > 0, "Solve returns a non-positive slack or multiplier");
    } catch (const FailedFactorization&) {
    } catch (const std::exception& e) { if (!breakdown(e)) fail(std::string("Solve raised ") + e.what()); }
  }
  return 0;
}
