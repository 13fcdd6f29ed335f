#include "qp.hpp"
#include "nls.hpp"
#include "solve_ref.hpp"
// a used solver against a fresh one, bit for bit
static bool same_vec(const VectorXd& a, const VectorXd& b) {
  if (a.size() != b.size()) return false;
  for (int i = 0; i < a.size(); ++i)
    if (!same_num(a[i], b[i])) return false;
  return true;
}
int main(int argc, char** argv) {
  init(argc, argv);
  QPInteriorPointSolver used;
  QPNullSpaceSolver nused;
  while (more()) {
    switch (ri(0, 2)) {
      case 0: {
        const QP q = gen_qp();
        auto p = gen_solve_params();
        if (p.initial_guess_method == InitialGuessMethod::USER_PROVIDED) p.initial_guess_method = InitialGuessMethod::NAIVE;
        context(show(q) + show(p));
        QPInteriorPointSolver f;
        QPInteriorPointSolverOutputs a, b;
        const bool t1 = throws([&] { f.Setup(&q); a = f.Solve(p); });
        const bool t2 = throws([&] { used.Setup(&q); b = used.Solve(p); });
        check(t1 == t2, "a used interior-point solver raises " + str(t2) + ", a fresh one " + str(t1));
        if (!t1) {
          check(same_ip(a, b), "a used interior-point solver reports another log than a fresh one");
          check(same_vec(f.variables(), used.variables()), "a used interior-point solver finds another solution than a fresh one");
        }
        break;
      }
      case 1: {
        QP q = gen_qp();
        q.constraints.clear();
        context(show(q));
        QPNullSpaceSolver f;
        QPNullSpaceTerminationState a{}, b{};
        const bool t1 = throws([&] { a = f.Solve(q); });
        const bool t2 = throws([&] { b = nused.Solve(q); });
        check(t1 == t2 && a == b, "a used null-space solver behaves differently");
        if (!t1 && a == QPNullSpaceTerminationState::SUCCESS) check(same_vec(f.variables(), nused.variables()), "a used null-space solver finds another solution than a fresh one");
        break;
      }
      default: {
        VectorXd x0, x1;
        const auto q = gen_problem(ri(0, 3), &x0);
        x1 = rvec(q->p.dimension, 2.0);
        NLS u(&q->p), f(&q->p);
        const auto p0 = gen_nls_params(), p = gen_nls_params();
        context(show(*q, x0, p) + "solved before from " + str(x1.transpose()) + " with\n" + show(*q, x1, p0));
        throws([&] { u.Solve(p0, x1); });
        std::unique_ptr<NLSSolverOutputs> a, b;
        const bool t1 = throws([&] { a = std::make_unique<NLSSolverOutputs>(f.Solve(p, x0)); });
        const bool t2 = throws([&] { b = std::make_unique<NLSSolverOutputs>(u.Solve(p, x0)); });
        check(t1 == t2, "a used nonlinear solver raises " + str(t2) + ", a fresh one " + str(t1));
        if (a && b) {
          check(same_out(*a, *b), "a used nonlinear solver reports another log than a fresh one");
          check(same_vec(f.variables(), u.variables()), "a used nonlinear solver returns other variables than a fresh one");
        }
      }
    }
  }
  return 0;
}
