#include "solve_ref.hpp"
int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) {
    const QP q = gen_qp();
    const auto p = gen_solve_params();
    context(show(q) + show(p));
    check_solve(q, p, false, true);
  }
  return 0;
}
