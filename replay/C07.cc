#include "qp.hpp"
static void check_guess(IPS& s, const QP& q, InitialGuessMethod m, const VectorXd& before) {
  IPS::Params p;
  p.initial_guess_method = m;
  s.ComputeInitialGuess(p);
  const int N = q.G.rows(), K = q.A_eq.rows();
  if (m == InitialGuessMethod::USER_PROVIDED) {
    check(s.variables() == before, "user-provided variables changed");
    return;
  }
  VectorXd x0 = VectorXd::Zero(N), y0 = VectorXd::Zero(K);
  if (m == InitialGuessMethod::SOLVE_EQUALITY_CONSTRAINED) {
    MatrixXd H = MatrixXd::Zero(N + K, N + K);
    VectorXd r(N + K);
    H.topLeftCorner(N, N) = sym(q.G);
    r.head(N) = -q.c;
    if (K) {
      H.topRightCorner(N, K) = -q.A_eq.transpose();
      H.bottomLeftCorner(K, N) = q.A_eq;
      r.tail(K) = -q.b_eq;
    }
    const VectorXd sol = H.fullPivLu().solve(r);
    x0 = sol.head(N);
    y0 = sol.tail(K);
  }
  const Pt v = split(q, s.variables());
  const double t = 1e-7 * (1 + x0.norm() + y0.norm());
  check((v.y - y0).norm() <= t, "equality multipliers of the guess: " + str(v.y.transpose()) + " expected " + str(y0.transpose()));
  for (int i = 0; i < N; ++i) {
    double lo = -1e300, hi = 1e300;
    for (auto& c : q.constraints)
      if (c.variable == i) (c.a > 0 ? lo = std::max(lo, -c.b / c.a) : hi = std::min(hi, -c.b / c.a));
    if (lo > hi + 1e-12) continue;
    const double want = std::min(std::max(x0[i], lo), hi);
    check(std::abs(v.x[i] - want) <= t, "x[" + str(i) + "] = " + str(v.x[i]) + ", expected " + str(want));
  }
  for (std::size_t l = 0; l < q.constraints.size(); ++l) {
    const auto& c = q.constraints[l];
    const double sv = std::max(1e-9, c.a * v.x[c.variable] + c.b);
    check(std::abs(v.s[l] - sv) <= 1e-12 * (1 + sv), "slack " + str(l) + " = " + str(v.s[l]) + ", expected " + str(sv));
    check(near(v.z[l] * v.s[l], 1.0, 1e-9), "multiplier " + str(l));
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) {
    const QP q = gen_qp();
    IPS s(&q);
    const VectorXd v = rvec(s.variables().rows(), 20);
    s.SetVariables(v);
    s.delta_.setConstant(11); s.delta_affine_.setConstant(12); s.r_.setConstant(13); s.H_inv_.setConstant(14);
    const auto m = static_cast<InitialGuessMethod>(ri(0, 2));
    context(show(q) + "guess=" + str(int(m)) + " variables=" + str(v.transpose()));
    nothrow("initial guess", [&] { check_guess(s, q, m, v); });
  }
  return 0;
}
