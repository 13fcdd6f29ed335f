// FLAGS: -include eigen_check.hpp -fsanitize=address,undefined -fno-sanitize=null,nonnull-attribute,pointer-overflow -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS
// every entry point on random problems, with Eigen's assertions, AddressSanitizer and UndefinedBehaviorSanitizer on;
// inputs with wrong lengths and indices out of range must raise
#include "nls.hpp"
#include "qp.hpp"
#include "solve_ref.hpp"
#include "mini_opt/residual.hpp"
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0"; }
void vp_print_context() { std::printf("%s\n", g_context.c_str()); }
static void qp_case() {
  GenOpts o;
  o.max_n = 6;
  QP q = gen_qp(o);
  if (ri(0, 9) == 0) q.G = -q.G;                      // indefinite: Solve may raise, but must stay inside its storage
  if (ri(0, 4) == 0 && q.A_eq.rows()) {               // redundant rows
    MatrixXd A(q.A_eq.rows() + 1, q.A_eq.cols());
    A << q.A_eq, q.A_eq.row(0);
    VectorXd b(A.rows());
    b << q.b_eq, q.b_eq[0];
    q.A_eq = A;
    q.b_eq = b;
  }
  const auto p = gen_solve_params();
  context(show(q));
  static IPS reused;
  IPS fresh;
  IPS& s = rb() ? fresh : reused;
  nothrow("Setup", [&] { s.Setup(&q); });
  const int n = (int)s.variables().rows();
  if (p.initial_guess_method == InitialGuessMethod::USER_PROVIDED) s.SetVariables(interior_point(q));
  check(throws([&] { s.SetVariables(rvec(n + 1)); }), "SetVariables accepts a vector that is too long");
  if (n) check(throws([&] { s.SetVariables(rvec(n - 1)); }), "SetVariables accepts a vector that is too short");
  try { (void)s.Solve(p); } catch (const std::exception&) {}
  try { MatrixXd H; VectorXd r; s.BuildFullSystem(&H, &r); } catch (const std::exception&) {}
  (void)q.ComputeEigenvalueStats();
  const VectorXd shortx = rvec(ri(0, 3));
  for (int i = 0; i < 3; ++i) {
    const int v = ri(-1, 4);
    const LinearInequalityConstraint c(v, 2.0, 1.0);
    check(throws([&] { (void)c.ShiftTo(shortx); }) == (v < 0 || v >= shortx.rows()), "ShiftTo of variable " + str(v) + " of " + str(shortx.rows()));
  }
}
static void null_case() {
  const int N = ri(1, 6), K = ri(1, N + 2);
  QP q(N);
  const MatrixXd B = rmat(N, N);
  q.G = B * B.transpose() + MatrixXd::Identity(N, N) * (rb() ? 0.5 : -0.5);
  q.c = rvec(N);
  q.A_eq = rmat(K, N);
  for (int k = 1; k < K; ++k)
    if (ri(0, 2) == 0) q.A_eq.row(k) = q.A_eq.row(ri(0, k - 1));
  q.b_eq = -q.A_eq * rvec(N);
  if (ri(0, 9) == 0) q.A_eq.setZero();
  context(show(q));
  static QPNullSpaceSolver reused;
  QPNullSpaceSolver fresh;
  QPNullSpaceSolver& s = rb() ? fresh : reused;
  try { (void)s.Solve(q); } catch (const std::exception&) {}
}
static void invalid_nls() {
  VectorXd x0;
  const auto q = gen_problem(ri(0, 3), &x0);
  auto p = gen_nls_params();
  p.max_iterations = std::max(p.max_iterations, 1);
  context(show(*q, x0, p));
  const int n = q->p.dimension;
  {
    NLS s(&q->p);
    const int m = rb() ? n + ri(1, 2) : n - 1;
    check(throws([&] { (void)s.Solve(p, rvec(m)); }), "start vector of length " + str(m) + " accepted for " + str(n) + " variables");
  }
  const int bad = rb() ? n + ri(0, 2) : -ri(1, 2);
  Poly2 f = gen_poly(1, 1);
  const int kind = ri(0, 2);
  if (kind == 0) q->p.costs.insert(q->p.costs.begin() + ri(0, (int)q->p.costs.size()), mk<1, 1>({bad}, f));
  else if (kind == 1) q->p.equality_constraints.push_back(mk<1, -1>({bad}, f));
  else q->p.inequality_constraints.emplace_back(bad, 1.0, 5.0);
  check(throws([&] { NLS s(&q->p); (void)s.Solve(p, x0); }), "index " + str(bad) + " of " + str(n) + " variables accepted in kind " + str(kind));
}
// one residual longer than all others, as a cost or as an equality constraint
static void long_residual() {
  const int n = 3;
  const bool eq = rb(), ineq = rb();
  Problem p;
  p.dimension = n;
  for (int i = 0; i < n; ++i) {
    Poly2 f = gen_poly(1, 1);
    f.A(0, 0) = 1.0; f.B.setZero(); f.w.setZero();
    p.costs.push_back(mk<1, 1>({i}, f));
  }
  Poly2 f = gen_poly(3, 2);
  f.B *= 0.1; f.w.setZero();
  (eq ? p.equality_constraints : p.costs).push_back(mk<3, -1>({ri(0, 1), 2}, f));
  if (ineq) p.inequality_constraints.emplace_back(ri(0, 2), 1.0, 5.0);
  context(std::string("a residual of dimension 3 among residuals of dimension 1, as ") + (eq ? "an equality constraint" : "a cost"));
  try {
    NLS s(&p);
    ConstrainedNonlinearLeastSquares::Params q;
    q.max_iterations = 3;
    (void)s.Solve(q, rvec(n));
  } catch (const std::exception&) {}
}
// index lists written in place: a fixed number of parameters takes exactly that many indices
static void index_lists() {
  Poly2 f1 = gen_poly(1, 1), f2 = gen_poly(1, 2), f3 = gen_poly(1, 3);
  context("index lists {0}, {0, 1}, {0, 1, 2}");
  check(throws([&] { (void)MakeResidual<1, 2>({0}, Fn<1, 2>{f2}); }), "one index for two parameters accepted");
  check(throws([&] { (void)MakeResidual<1, 2>({0, 1, 2}, Fn<1, 2>{f2}); }), "three indices for two parameters accepted");
  check(throws([&] { (void)MakeResidual<1, 1>({0, 1}, Fn<1, 1>{f1}); }), "two indices for one parameter accepted");
  nothrow("MakeResidual", [&] { (void)MakeResidual<1, 2>({1, 0}, Fn<1, 2>{f2}); });
  nothrow("MakeResidual", [&] {
    const Residual r = MakeResidual<1, -1>({0, 2, 1}, Fn<1, -1>{f3});
    (void)r.QuadraticError(rvec(3));
  });
}
template <int R, int P>
static void residual_case() {
  const int len = P < 0 ? ri(0, 4) : P;
  const int n = len + ri(1, 3);
  auto idx = gen_idx(n, len);
  bool ok = true;
  if (len && rb()) { idx[ri(0, len - 1)] = rb() ? n + ri(0, 2) : -ri(1, 3); ok = false; }
  Poly2 f;
  f.c = rvec(R); f.A = rmat(R, len); f.B = MatrixXd::Zero(R, len); f.w = VectorXd::Zero(R);
  if (len == 0) return;
  const Residual r = mk<R, P>(idx, f);
  const VectorXd x = rvec(n);
  std::string s = "residual of dimension " + str(R) + ", " + str(n) + " parameters, indices";
  for (int i : idx) s += " " + str(i);
  context(s);
  VectorXd e(R), g = rvec(n);
  MatrixXd H = MatrixXd::Zero(n, n), J = MatrixXd::Zero(R, n);
  check(throws([&] { r.ErrorVector(x, e.head(R)); }) == !ok, "ErrorVector");
  check(throws([&] { (void)r.QuadraticError(x); }) == !ok, "QuadraticError");
  check(throws([&] { (void)r.UpdateHessian(x, &H, &g); }) == !ok, "UpdateHessian");
  check(throws([&] { r.UpdateJacobian(x, J.topRows(R), e.head(R)); }) == !ok, "UpdateJacobian");
  if (!ok) return;
  VectorXd big(R + 1), bigg(n + 1);
  MatrixXd bigJ(R + 1, n), wideJ(R, n + 1), bigH = MatrixXd::Zero(n + 1, n), wideH = MatrixXd::Zero(n, n + 1);
  check(throws([&] { r.ErrorVector(x, big.head(R + 1)); }), "ErrorVector with a long output");
  check(throws([&] { (void)r.UpdateHessian(x, &bigH, &g); }), "UpdateHessian with too many rows");
  check(throws([&] { (void)r.UpdateHessian(x, &wideH, &g); }), "UpdateHessian with too many columns");
  check(throws([&] { (void)r.UpdateHessian(x, &H, &bigg); }), "UpdateHessian with a long vector");
  check(throws([&] { r.UpdateJacobian(x, bigJ.topRows(R + 1), e.head(R)); }), "UpdateJacobian with too many rows");
}
int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) {
    qp_case();
    null_case();
    run_monitored(0);
    invalid_nls();
    long_residual();
    index_lists();
    residual_case<1, 1>();
    residual_case<1, 2>();
    residual_case<1, -1>();
    residual_case<2, 2>();
    residual_case<2, 1>();
    residual_case<3, -1>();
  }
  return 0;
}
