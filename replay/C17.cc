#include "nls.hpp"
static double val() { return ri(0, 3) == 0 ? 0.0 : rd(-2, 2); }
static void direct() {   // the two helpers on arbitrary subproblems, zero residuals and garbage above the diagonal included
  const int n = ri(1, 4), k = ri(0, 4);
  QP qp(n);
  VectorXd dx(n);
  for (int i = 0; i < n; ++i) { qp.c[i] = val(); dx[i] = val(); for (int j = 0; j < n; ++j) qp.G(i, j) = val(); }
  qp.A_eq.resize(k, n); qp.b_eq.resize(k);
  for (int i = 0; i < k; ++i) { qp.b_eq[i] = val(); for (int j = 0; j < n; ++j) qp.A_eq(i, j) = val(); }
  double f = 0, e = 0, l1 = 0, q = 0;
  for (int i = 0; i < n; ++i) f += qp.c[i] * dx[i];
  for (int i = 0; i < k; ++i) {
    double r = 0;
    for (int j = 0; j < n; ++j) r += qp.A_eq(i, j) * dx[j];
    e += qp.b_eq[i] > 0 ? r : qp.b_eq[i] < 0 ? -r : 0.0;
    l1 += std::abs(qp.b_eq[i]);
  }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) q += dx[i] * dx[j] * (j <= i ? qp.G(i, j) : qp.G(j, i));
  context("G\n" + str(qp.G) + "\nc " + str(qp.c.transpose()) + "\nA_eq\n" + str(qp.A_eq) + "\nb_eq " + str(qp.b_eq.transpose()) + "\ndx " + str(dx.transpose()) + "\n");
  const DirectionalDerivatives d = NLS::ComputeQPCostDerivative(qp, dx);
  check_near(d.d_f, f, "cost derivative is not c^T dx", 1e-9);
  check_near(d.d_equality, e, "constraint derivative is not the sum of sign(residual) * row * dx", 1e-9);
  const double rho = rb() ? 0.0 : rd(0, 0.95);
  if (l1 > 1e-6) {
    const double want = (f + 0.5 * std::max(0.0, q)) / ((1 - rho) * l1);
    check(NLS::SelectPenalty(qp, dx, std::nullopt, rho) >= want - 1e-9 * (1 + std::abs(want)), "null-space penalty is too small");
  }
  const double linf = rd(0, 5);
  check(NLS::SelectPenalty(qp, dx, QPLagrangeMultipliers{rd(-5, linf), linf}, rho) >= linf, "penalty below the largest multiplier");
}
int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) { for (int i = 0; i < 20; ++i) direct(); run_monitored(P17); }
  return 0;
}
