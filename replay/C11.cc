#include "qp.hpp"
int main(int argc, char** argv) {
  init(argc, argv);
  QPNullSpaceSolver reused;
  while (more()) {
    const int N = ri(1, 6), K = ri(0, N + 1);
    QP q;
    MatrixXd B = rmat(N, N);
    q.G = B * B.transpose() + MatrixXd::Identity(N, N) * rd(0.2, 1);
    const bool indef = ri(0, 3) == 0;
    if (indef) q.G -= MatrixXd::Identity(N, N) * rd(1, 4);
    const MatrixXd S = q.G;
    for (int i = 0; i < N; ++i)
      for (int j = i + 1; j < N; ++j) q.G(i, j) = rd(-20, 20);
    q.c = rvec(N, 2);
    const int rank = K ? ri(1, std::min(N, K)) : 0;
    q.A_eq.resize(K, N);
    MatrixXd base;
    if (K) {
      do base = rmat(rank, N);
      while (Eigen::JacobiSVD<MatrixXd>(base).singularValues().minCoeff() < 0.2);
      for (int k = 0; k < K; ++k) {
        if (k < rank) q.A_eq.row(k) = base.row(k);
        else q.A_eq.row(k) = (ri(0, 1) ? 1.0 : -2.0) * base.row(ri(0, rank - 1));
      }
      for (int k = 0; k < K; ++k) { const int j = ri(0, K - 1); q.A_eq.row(k).swap(q.A_eq.row(j)); }
      q.b_eq = -q.A_eq * rvec(N, 1);
    } else {
      q.b_eq.resize(0);
    }
    context(show(q));
    QPNullSpaceSolver fresh;
    QPNullSpaceSolver& s = rb() ? fresh : reused;
    if (K == 0) {
      check(throws([&] { (void)s.Solve(q); }), "a problem without equality rows must raise");
      continue;
    }
    // Eigen's rank decision is a floating-point matter (trusted)
    if (q.A_eq.transpose().colPivHouseholderQr().rank() != rank) continue;
    MatrixXd Z = Eigen::FullPivLU<MatrixXd>(base).kernel();
    const int free = N - rank;
    double mineig = 1;
    if (free > 0) {
      Z = Eigen::HouseholderQR<MatrixXd>(Z).householderQ() * MatrixXd::Identity(N, free);
      mineig = Eigen::SelfAdjointEigenSolver<MatrixXd>(Z.transpose() * S * Z).eigenvalues().minCoeff();
    }
    if (std::abs(mineig) < 1e-3) continue;
    nothrow("null-space solver", [&] {
      const auto st = s.Solve(q);
      check((st == QPNullSpaceTerminationState::SUCCESS) == (mineig > 0), "termination state with smallest projected eigenvalue " + str(mineig));
      if (mineig <= 0) return;
      const VectorXd x = s.variables();
      check(x.rows() == N, "length of the solution");
      check((q.A_eq * x + q.b_eq).norm() < 1e-7 * (1 + x.norm()), "constraints violated by " + str((q.A_eq * x + q.b_eq).norm()));
      if (free > 0) check((Z.transpose() * (S * x + q.c)).norm() < 1e-6 * (1 + x.norm() * S.norm() + q.c.norm()), "gradient not orthogonal to the free directions");
    });
  }
  return 0;
}
