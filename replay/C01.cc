#include "qp.hpp"
int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) {
    const double v = ri(0, 5) ? rd(-5, 5) : ri(-2, 2), x = ri(0, 4) ? rd(-6, 6) : v;
    const int idx = ri(-2, 6);
    const double as[] = {1, -1, 0.25, -0.25, 2, -4, 0};
    const double a = ri(0, 2) ? as[ri(0, 6)] : rd(-3, 3), b = ri(0, 3) ? rd(-4, 4) : ri(-2, 2);
    context("idx=" + str(idx) + " a=" + str(a) + " b=" + str(b) + " v=" + str(v) + " x=" + str(x));
    nothrow("bound helpers", [&] {
      const LinearInequalityConstraint ge = Var(idx) >= v, le = Var(idx) <= v;
      check(ge.variable == idx && le.variable == idx, "Var operator refers to another variable");
      if (std::abs(x - v) > 1e-9 || x == v) {
        check(ge.IsFeasible(x) == (x >= v), "Var >= value");
        check(le.IsFeasible(x) == (x <= v), "Var <= value");
      }
      const LinearInequalityConstraint c(idx, a, b);
      check(c.variable == idx && c.a == a && c.b == b, "constructor");
      check(c.IsFeasible(x) == (a * x + b >= 0), "IsFeasible");
      if (a == 0) {
        check(throws([&] { (void)c.ClampX(x); }), "ClampX with a = 0 must raise");
      } else {
        const double r = c.ClampX(x);
        check(a * r + b >= -1e-12 * (1 + std::abs(b)), "clamped value infeasible: " + str(r));
        if (a * x + b >= 0) check(near(r, x, 1e-12), "a feasible value moved to " + str(r));
        else check_near(r, -b / a, "clamped value is not the boundary", 1e-12);
      }
      const double dx = rd(-3, 3);
      const auto sh = c.ShiftTo(x);
      check(sh.variable == idx, "shift changes the variable");
      const double f0 = a * (x + dx) + b, f1 = sh.a * dx + sh.b;
      if (std::abs(f0) > 1e-9) check((f0 >= 0) == (f1 >= 0), "shifted bound");
      const VectorXd xs = rvec(ri(0, 5), 3);
      const bool bad = idx < 0 || idx >= xs.size();
      bool threw = false;
      try {
        const auto sv = c.ShiftTo(xs);
        if (!bad) {
          check(sv.variable == idx, "shift changes the variable");
          check_near(sv.a, a, "shifted a");
          check_near(sv.b, a * xs[idx] + b, "shifted b");
        }
      } catch (const std::exception&) {
        threw = true;
      }
      check(threw == bad, "ShiftTo(vector) must raise exactly for a bad index");
    });
  }
  return 0;
}
