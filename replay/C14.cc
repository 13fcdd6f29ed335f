#include "nls.hpp"
int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) {
    const double f0 = rd(-3, 3), g = ri(0, 9) == 0 ? 0.0 : rd(-4, 1), a0 = rb() ? 1.0 : rd(0.05, 2), fa = f0 + (rb() ? rd(-3, 3) : g * a0 + rd(-1e-3, 1));
    context("phi0 " + str(f0) + " slope " + str(g) + " alpha0 " + str(a0) + " phi(alpha0) " + str(fa));
    const auto q = NLS::QuadraticApproxMinimum(f0, g, a0, fa);
    const double A = (fa - g * a0 - f0) / (a0 * a0);
    if (std::abs(A) > 1e-9) {
      check(q.has_value() == (g <= 0 && A > 0), "quadratic model: minimizer reported although there is none, or none reported");
      if (q) check_near(*q, -g / (2 * A), "minimizer of the parabola");
    }
    const double a1 = rb() ? a0 * rd(0.05, 0.95) : rd(-0.5, 2.5), fb = f0 + rd(-3, 3);
    context(g_context + " alpha1 " + str(a1) + " phi(alpha1) " + str(fb));
    Eigen::Vector2d ab;
    const bool bad = throws([&] { ab = NLS::CubicApproxCoeffs(f0, g, a0, fa, a1, fb); });
    check(bad == !(a0 > a1 && a1 > 0), "cubic coefficients: raised " + str(bad));
    if (!bad && a0 - a1 > 0.02 && a1 > 0.02) {
      check_near(ab[0] * a0 * a0 * a0 + ab[1] * a0 * a0 + g * a0 + f0, fa, "cubic does not interpolate the first value", 1e-7);
      check_near(ab[0] * a1 * a1 * a1 + ab[1] * a1 * a1 + g * a1 + f0, fb, "cubic does not interpolate the second value", 1e-7);
    }
    if (bad || ri(0, 2) == 0) ab = Eigen::Vector2d(ri(0, 5) == 0 ? 0.0 : rd(-3, 3), ri(0, 4) == 0 ? 0.0 : rd(-3, 3));
    double slope = g;
    if (ri(0, 4) == 0 && ab[0] != 0) slope = ab[1] * ab[1] / (3 * ab[0]);   // double root, up to rounding
    context(g_context + " coefficients " + str(ab.transpose()) + " slope used " + str(slope));
    const auto c = NLS::CubicApproxMinimum(slope, ab);
    const double disc = ab[1] * ab[1] - 3 * ab[0] * slope;
    if (ab[0] == 0.0 || disc < -1e-9) check(!c.has_value(), "cubic model without a minimum returns a point");
    else if (disc > -1e-13) {
      check(c.has_value(), "cubic model returns nothing");
      check(!std::isnan(*c), "cubic model returns NaN");
      const double t = *c, sc = 1e-6 * (1 + std::abs(3 * ab[0] * t * t) + std::abs(2 * ab[1] * t) + std::abs(slope)) + 1e-5 * (disc < 1e-9) +
                   1e-14 * ab[1] * ab[1] / std::abs(ab[0]);  // cancellation in sqrt(disc) - b
      check(std::abs(3 * ab[0] * t * t + 2 * ab[1] * t + slope) <= sc, "the point is not stationary: " + str(t));
      check(6 * ab[0] * t + 2 * ab[1] >= -1e-6 * (1 + std::abs(ab[1])), "the curvature is negative at " + str(t));
    }
  }
  return 0;
}
