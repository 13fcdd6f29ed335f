#include "qp.hpp"
int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) {
    QP q = gen_qp();
    if (ri(0, 2) == 0)  // some bounds far away
      for (auto& c : q.constraints) if (rb()) c.b += std::pow(10.0, ri(1, 5));
    IPS s(&q);
    const auto p = gen_params();
    context(show(q) + show(p));
    try {
      (void)s.Solve(p);
      if (s.variables().allFinite()) {
        int l = 0;
        for (auto& c : q.constraints) {
          const double ax = c.a * s.x_block()[c.variable], sl = s.s_block()[l++];
          check(ax + c.b >= -1e-9 - 1e-9 * (1 + std::abs(c.b) + std::abs(ax)),
                "bound violated by " + str(ax + c.b) + ", x=" + str(s.x_block().transpose()));
          const double tol = 1e-7 * (1 + std::abs(c.b) + std::abs(ax) + std::abs(sl));
          check(ax + c.b - sl <= tol && ax + c.b - sl >= -1e-9 - tol,
                "gap of bound " + std::to_string(l - 1) + " is " + str(ax + c.b - sl) + ", x=" + str(s.x_block().transpose()));
        }
      }
    } catch (const FailedFactorization&) {
    } catch (const std::exception& e) { if (!breakdown(e)) fail(std::string("Solve raised ") + e.what()); }
    // one step shrinks every gap by 1 - alpha
    VectorXd v = interior_point(q);
    s.SetVariables(v);
    context(show(q) + "variables=" + str(v.transpose()));
    try {
      const auto out = s.Iterate(rd(0, 2), static_cast<BarrierStrategy>(ri(0, 2)));
      const Pt a = residuals(q, v), b = residuals(q, s.variables());
      check((b.z - (1 - out.alpha.primal) * a.z).norm() <= 1e-6 * (1 + a.z.norm() + v.norm() + s.delta_.norm()), "gap does not shrink by 1 - alpha");
    } catch (const FailedFactorization&) {
    } catch (const std::exception& e) { if (!breakdown(e)) fail(std::string("Iterate raised ") + e.what()); }
  }
  return 0;
}
