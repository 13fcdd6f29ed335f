#include "qp.hpp"
static bool malformed_ip(const QP& q) {
  const int N = q.G.rows();
  if (q.G.rows() != q.G.cols() || q.c.rows() != N || q.A_eq.rows() != q.b_eq.rows()) return true;
  if (q.A_eq.size() > 0 && q.A_eq.cols() != N) return true;
  for (auto& c : q.constraints)
    if (c.variable < 0 || c.variable >= N) return true;
  return false;
}
static bool malformed_ns(const QP& q) {
  return q.A_eq.rows() <= 0 || q.A_eq.rows() != q.b_eq.rows() || q.G.rows() != q.G.cols() || q.G.rows() != q.c.rows() || q.A_eq.cols() != q.G.rows();
}
int main(int argc, char** argv) {
  init(argc, argv);
  IPS reused;
  check(throws([&] { (void)reused.Solve({}); }), "Solve without a problem must raise");
  check(throws([&] { (void)reused.problem(); }), "problem() without a problem must raise");
  check(throws([&] { reused.Setup(nullptr); }), "Setup(nullptr) must raise");
  check(throws([&] { IPS s(nullptr); }), "constructor with nullptr must raise");
  while (more()) {
    QP q = gen_qp();
    const int N = q.G.rows(), K = q.A_eq.rows();
    switch (ri(0, 9)) {
      case 0: q.G = rmat(N, N + ri(-1, 1)); if (q.G.rows() == q.G.cols()) q.G = MatrixXd::Identity(N, N); break;
      case 1: q.G = rmat(N + 1, N); break;
      case 2: q.c = rvec(N + (rb() ? 1 : -1)); break;
      case 3: q.b_eq = rvec(K + 1); break;
      case 4: if (K > 0) q.b_eq = rvec(K - 1); break;
      case 5: if (K > 0) q.A_eq = rmat(K, N + (rb() ? 1 : -1)); break;
      case 6: q.constraints.insert(q.constraints.begin() + ri(0, (int)q.constraints.size()), LinearInequalityConstraint(rb() ? -ri(1, 3) : N + ri(0, 2), 1.0, 5.0)); break;
      default: break;
    }
    if (q.A_eq.size() == 0) { q.A_eq.resize(0, 0); if (q.b_eq.size() && rb()) q.b_eq.resize(0); }
    context(show(q));
    const bool bad = malformed_ip(q);
    bool threw = false;
    IPS fresh;
    try {
      fresh.Setup(&q);
    } catch (const std::exception&) {
      threw = true;
    }
    check(threw == bad, bad ? "malformed problem accepted by the interior-point solver" : "well-formed problem rejected by the interior-point solver");
    if (!bad) {
      const int n = N + 2 * (int)q.constraints.size() + (int)q.A_eq.rows();
      check(fresh.variables().rows() == n, "number of variables");
      check(fresh.x_block().rows() == N && fresh.s_block().rows() == (int)q.constraints.size() && fresh.z_block().rows() == (int)q.constraints.size() && fresh.y_block().rows() == q.A_eq.rows(), "block sizes");
      check(&fresh.problem() == &q, "problem()");
      const int m = n + ri(-1, 1);
      const VectorXd v = rvec(std::max(m, 0));
      check(throws([&] { fresh.SetVariables(v); }) == (v.rows() != n), "SetVariables must raise exactly for a wrong length");
      if (v.rows() == n) check(fresh.variables() == v, "SetVariables stores the vector");
    }
    check(throws([&] { IPS s(&q); }) == bad, "constructor checks");
    if (!malformed_ns(q)) {
      QPNullSpaceSolver ns;
      nothrow("null-space solver on a well-formed problem", [&] { (void)ns.Solve(q); });
    } else {
      QPNullSpaceSolver ns;
      check(throws([&] { (void)ns.Solve(q); }), "malformed problem accepted by the null-space solver");
    }
  }
  return 0;
}
