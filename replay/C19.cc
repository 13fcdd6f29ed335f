#include "gen_out.hpp"
template <typename E>
static void names(const std::vector<std::pair<E, std::string>>& all) {
  for (const auto& [v, s] : all) {
    context("enumeration value " + str(static_cast<int>(v)) + " declared as " + s);
    std::ostringstream o;
    o << "<" << v << ">";
    check(o.str() == "<" + s + ">", "printed as " + o.str());
    check(fmt::format("{}", v) == s, "formatted as " + fmt::format("{}", v));
  }
}
#define N(E, x) {E::x, #x}
int main(int argc, char** argv) {
  init(argc, argv);
  using G = InitialGuessMethod;
  names<G>({N(G, NAIVE), N(G, SOLVE_EQUALITY_CONSTRAINED), N(G, USER_PROVIDED)});
  using Q = QPInteriorPointTerminationState;
  names<Q>({N(Q, SATISFIED_KKT_TOL), N(Q, MAX_ITERATIONS)});
  using S = QPNullSpaceTerminationState;
  names<S>({N(S, SUCCESS), N(S, NOT_POSITIVE_DEFINITE)});
  using L = LineSearchStrategy;
  names<L>({N(L, ARMIJO_BACKTRACK), N(L, POLYNOMIAL_APPROXIMATION)});
  using O = OptimizerState;
  names<O>({N(O, NOMINAL), N(O, ATTEMPTING_RESTORE_LM)});
  using R = StepSizeSelectionResult;
  names<R>({N(R, SUCCESS), N(R, MAX_ITERATIONS), N(R, FIRST_ORDER_SATISFIED), N(R, POSITIVE_DERIVATIVE), N(R, FAILURE_NON_FINITE_COST), N(R, FAILURE_INVALID_ALPHA)});
  using T = NLSTerminationState;
  names<T>({N(T, MAX_ITERATIONS), N(T, SATISFIED_ABSOLUTE_TOL), N(T, SATISFIED_RELATIVE_TOL), N(T, SATISFIED_FIRST_ORDER_TOL), N(T, MAX_LAMBDA), N(T, QP_INDEFINITE), N(T, USER_CALLBACK)});
  for (int i = 0; i <= 6; ++i) {
    const auto t = static_cast<T>(i);
    context("termination state " + str(t));
    check(TerminationStateIndicatesSatisfiedTol(t) == (t == T::SATISFIED_ABSOLUTE_TOL || t == T::SATISFIED_RELATIVE_TOL || t == T::SATISFIED_FIRST_ORDER_TOL), "satisfied-tolerance test");
  }
  while (more()) {
    const NLSSolverOutputs out = gen_outputs();
    context(out.ToString(false, true));
    std::size_t q = 0, s = 0, f = 0;
    for (const auto& it : out.iterations) {
      const auto* ip = std::get_if<QPInteriorPointSolverOutputs>(&it.qp_outputs);
      q += ip ? ip->iterations.size() : 1;
      s += it.line_search_steps.size();
      if (it.step_result != R::SUCCESS && it.step_result != R::FIRST_ORDER_SATISFIED) ++f;
    }
    check(out.NumQPIterations() == q, "QP iterations: " + str(out.NumQPIterations()) + " instead of " + str(q));
    check(out.NumLineSearchSteps() == s, "line-search steps: " + str(out.NumLineSearchSteps()) + " instead of " + str(s));
    check(out.NumFailedLineSearches() == f, "failed line searches: " + str(out.NumFailedLineSearches()) + " instead of " + str(f));
  }
  return 0;
}
