#include "nls.hpp"
#include "qp.hpp"
static double around(double lo, double hi) {   // values inside, outside and on both ends of [lo, hi]
  switch (ri(0, 6)) {
    case 0: return lo;
    case 1: return hi;
    case 2: return lo - rd(1e-9, 1);
    case 3: return hi + rd(1e-9, 1);
    default: return rd(lo, hi);
  }
}
template <typename F>
static std::string message(F&& f) {
  try {
    f();
  } catch (const std::exception& e) {
    return e.what();
  }
  return "";
}
int main(int argc, char** argv) {
  init(argc, argv);
  // one convex problem on which no other error is raised
  Problem prob;
  prob.dimension = 2;
  Poly2 f;
  f.c = VectorXd::Constant(2, 0.5); f.A = MatrixXd::Identity(2, 2); f.B = MatrixXd::Zero(2, 2); f.w = VectorXd::Zero(2);
  prob.costs.push_back(mk<2, 2>({0, 1}, f));
  QP qp{2};
  qp.G.setIdentity();
  qp.c.setConstant(0.3);
  qp.constraints.emplace_back(0, 1.0, 1.0);
  while (more()) {
    {
      QPInteriorPointSolver::Params p{};
      p.max_iterations = 3;
      for (int k = ri(0, 2); k > 0; --k) switch (ri(0, 3)) {
          case 0: p.initial_mu = around(0, 2); break;
          case 1: p.sigma = around(0, 1); break;
          case 2: p.termination_kkt_tol = around(0, 1); break;
          default: p.max_iterations = ri(-1, 2);
        }
      const bool bad = !(p.initial_mu > 0) || !(p.sigma > 0) || !(p.sigma <= 1) || !(p.termination_kkt_tol > 0) || p.max_iterations < 1;
      context("QP parameters mu " + str(p.initial_mu) + " sigma " + str(p.sigma) + " tol " + str(p.termination_kkt_tol) + " iterations " + str(p.max_iterations));
      QPInteriorPointSolver s(&qp);
      const VectorXd before = s.variables();
      const std::string m = message([&] { s.Solve(p); });
      check(bad == !m.empty(), bad ? "a bad parameter was accepted" : "a valid parameter set was refused: " + m);
      if (bad) check((s.variables() - before).norm() == 0, "work was done before the parameters were checked");
    }
    {
      NLS::Params p{};
      p.max_iterations = 2;
      for (int k = ri(0, 3); k > 0; --k) switch (ri(0, 15)) {
          case 0: p.max_iterations = ri(-1, 2); break;
          case 1: p.max_qp_iterations = ri(-1, 3); break;
          case 2: p.termination_kkt_tolerance = around(0, 1e-3); break;
          case 3: p.absolute_exit_tol = around(0, 1); break;
          case 4: p.max_line_search_iterations = ri(-1, 2); break;
          case 5: p.relative_exit_tol = around(0, 1); break;
          case 6: p.absolute_first_derivative_tol = around(0, 1); break;
          case 7: p.armijo_search_tau = around(0, 1); break;
          case 8: p.equality_penalty_initial = around(0, 1); break;
          case 9: p.equality_penalty_scale_factor = around(1, 2); break;
          case 10: p.equality_penalty_rho = around(0, 1); break;
          case 11: p.max_lambda = around(0, 1); break;
          case 12: p.min_lambda = around(0, 1); break;
          case 13: p.lambda_initial = around(p.min_lambda, std::max(p.min_lambda, p.max_lambda)); break;
          case 14: p.lambda_failure_init = around(0, 1); break;
          default: (rb() ? p.lambda_decrease_on_success : p.lambda_decrease_on_restore) = around(0, 1);
        }
      const bool bad = p.max_iterations < 0 || p.max_qp_iterations < 1 || p.termination_kkt_tolerance <= 0 || p.absolute_exit_tol <= 0 || p.max_line_search_iterations < 0 ||
                       p.relative_exit_tol < 0 || p.relative_exit_tol > 1 || p.absolute_first_derivative_tol < 0 || p.armijo_search_tau <= 0 || p.armijo_search_tau >= 1 ||
                       p.equality_penalty_initial <= 0 || p.equality_penalty_scale_factor < 1 || p.equality_penalty_rho < 0 || p.equality_penalty_rho >= 1 || p.max_lambda < 0 || p.min_lambda < 0 ||
                       p.min_lambda > p.max_lambda || p.lambda_initial < p.min_lambda || p.lambda_initial > p.max_lambda || p.lambda_failure_init < 0 || p.lambda_decrease_on_success < 0 ||
                       p.lambda_decrease_on_success >= 1 || p.lambda_decrease_on_restore < 0 || p.lambda_decrease_on_restore >= 1;
      NProb dummy;
      dummy.p.dimension = 2;
      context(show(dummy, VectorXd::Zero(2), p));
      NLS s(&prob);
      const std::string m = message([&] { s.Solve(p, VectorXd::Constant(2, 0.25)); });
      check(bad == !m.empty(), bad ? "a bad parameter was accepted" : "a valid parameter set was refused: " + m);
      // work is recognizable by the variables having been taken over
      const int wrong = ri(0, 4);
      if (wrong != 2 && !bad) check(throws([&] { s.Solve(p, VectorXd::Zero(wrong)); }), "variables of length " + str(wrong) + " were accepted");
      if (ri(0, 20) == 0) check(throws([] { NLS z(nullptr); }), "a missing problem was accepted");
    }
  }
  return 0;
}
