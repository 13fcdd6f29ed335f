// residuals with random index lists, blocks inside larger matrices, wrong sizes and wrong indices
#include "common.hpp"
#include "mini_opt/residual.hpp"
template <int R, int P>
struct Fn {
  MatrixXd J0;
  VectorXd r0;
  Eigen::Matrix<double, R, 1> operator()(const Eigen::Matrix<double, P, 1>& p, Eigen::Matrix<double, R, P>* J) const {
    VectorXd r = r0;
    MatrixXd D = J0;
    for (int q = 0; q < R; ++q)
      for (int l = 0; l < J0.cols(); ++l) {
        r[q] += J0(q, l) * std::sin(p[l] * (1 + l));
        D(q, l) = J0(q, l) * std::cos(p[l] * (1 + l)) * (1 + l);
      }
    if (J) {
      if (J->rows() != R || J->cols() != J0.cols()) fail("jacobian output has the wrong size");
      *J = D;
    }
    return r;
  }
};
template <typename T>
static T rnd_distinct(int n, int len, T idx) {
  std::vector<int> p(n);
  for (int i = 0; i < n; ++i) p[i] = i;
  std::shuffle(p.begin(), p.end(), rng);
  for (int l = 0; l < len; ++l) idx[l] = p[l];
  return idx;
}
template <int R>
static void verify(const Residual& res, const std::vector<int>& idx, const MatrixXd& J0, const VectorXd& r0, int n, bool in_range) {
  const int len = static_cast<int>(idx.size());
  std::string list;
  for (int i : idx) list += " " + str(i);
  const VectorXd x = rvec(n, 2);
  context("R " + str(R) + " indices" + list + " of " + str(n) + " parameters\nx " + str(x.transpose()) + "\nJ0\n" + str(J0) + "\nr0 " + str(r0.transpose()));
  VectorXd r = r0;
  MatrixXd D = J0;
  if (in_range)
    for (int q = 0; q < R; ++q)
      for (int l = 0; l < len; ++l) {
        r[q] += J0(q, l) * std::sin(x[idx[l]] * (1 + l));
        D(q, l) = J0(q, l) * std::cos(x[idx[l]] * (1 + l)) * (1 + l);
      }
  check(res.Dimension() == R, "dimension");
  // error vector: a window of a larger vector
  {
    VectorXd out = rvec(R + 4), want = out;
    const bool t = throws([&] { res.ErrorVector(x, out.segment(2, R)); });
    check(t == !in_range, t ? "error vector raises for good indices" : "error vector accepts an index out of range");
    if (!t) want.segment(2, R) = r;
    for (int i = 0; i < out.size(); ++i) check_near(out[i], want[i], "error vector entry " + str(i), 1e-12);
    check(throws([&] { res.ErrorVector(x, out.segment(0, R + 1)); }), "error vector accepts an output of the wrong size");
    if (in_range) check_near(res.QuadraticError(x), 0.5 * r.squaredNorm(), "half the squared norm", 1e-12);
  }
  // hessian
  {
    MatrixXd H = rmat(n, n), H1 = H;
    VectorXd b = rvec(n), b1 = b;
    double e = 0;
    const bool t = throws([&] { e = res.UpdateHessian(x, &H1, &b1); });
    check(t == !in_range, t ? "hessian raises for good indices" : "hessian accepts an index out of range");
    if (!t) {
      for (int a = 0; a < len; ++a) {
        for (int c = 0; c < len; ++c)
          if (idx[c] <= idx[a]) H(idx[a], idx[c]) += D.col(a).dot(D.col(c));
        b[idx[a]] += D.col(a).dot(r);
      }
      check_near(e, 0.5 * r.squaredNorm(), "returned half squared norm", 1e-12);
      for (int i = 0; i < n; ++i) {
        check_near(b1[i], b[i], "b entry " + str(i), 1e-12);
        for (int j = 0; j < n; ++j) check_near(H1(i, j), H(i, j), "H entry " + str(i) + "," + str(j), 1e-12);
      }
      MatrixXd Hs = rmat(n + 1, n);
      VectorXd bl = rvec(n + 1);
      check(throws([&] { res.UpdateHessian(x, &Hs, &b1); }), "hessian that is not square accepted");
      check(throws([&] { res.UpdateHessian(x, &H1, &bl); }), "right-hand side of the wrong length accepted");
      check(throws([&] { res.UpdateHessian(x, nullptr, &b1); }) && throws([&] { res.UpdateHessian(x, &H1, nullptr); }), "null output accepted");
    }
  }
  // jacobian
  {
    const int r0_ = ri(0, 3), c0 = ri(0, 2);
    MatrixXd A = rmat(r0_ + R + 2, c0 + n + 1), W = A;
    VectorXd bo = rvec(r0_ + R + 2), bw = bo;
    const bool t = throws([&] { res.UpdateJacobian(x, A.block(r0_, c0, R, n), bo.segment(r0_, R)); });
    check(t == !in_range, t ? "jacobian raises for good indices" : "jacobian accepts an index out of range");
    if (!t) {
      for (int l = 0; l < len; ++l)
        for (int q = 0; q < R; ++q) W(r0_ + q, c0 + idx[l]) = D(q, l);
      bw.segment(r0_, R) = r;
      for (int i = 0; i < A.rows(); ++i)
        for (int j = 0; j < A.cols(); ++j) check_near(A(i, j), W(i, j), "jacobian entry " + str(i) + "," + str(j), 1e-12);
      for (int i = 0; i < bo.size(); ++i) check_near(bo[i], bw[i], "jacobian residual entry " + str(i), 1e-12);
      check(throws([&] { res.UpdateJacobian(x, A.block(0, 0, R + 1, n), bo.segment(0, R)); }), "jacobian output with too many rows accepted");
      check(throws([&] { res.UpdateJacobian(x, A.block(0, 0, R, n), bo.segment(0, R + 1)); }), "residual output with too many rows accepted");
    }
  }
}
template <int R, int P>
static void fixed_case() {
  const int n = ri(P, P + 5);
  const MatrixXd J0 = rmat(R, P);
  const VectorXd r0 = rvec(R);
  auto idx = rnd_distinct(n, P, std::array<int, P>{});
  bool ok = true;
  if (ri(0, 4) == 0) {
    idx[ri(0, P - 1)] = rb() ? -ri(1, 3) : n + ri(0, 3);
    ok = false;
  }
  verify<R>(MakeResidual<R, P>(idx, Fn<R, P>{J0, r0}), std::vector<int>(idx.begin(), idx.end()), J0, r0, n, ok);
}
template <int R>
static void dynamic_case() {
  const int P = ri(0, 6), n = ri(std::max(P, 1), P + 4);
  const MatrixXd J0 = rmat(R, P);
  const VectorXd r0 = rvec(R);
  auto idx = rnd_distinct(n, P, std::vector<int>(P));
  bool ok = true;
  if (P > 0 && ri(0, 4) == 0) {
    idx[ri(0, P - 1)] = rb() ? -ri(1, 3) : n + ri(0, 3);
    ok = false;
  }
  verify<R>(MakeResidual<R, Eigen::Dynamic>(idx, Fn<R, Eigen::Dynamic>{J0, r0}), idx, J0, r0, n, ok);
}
int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) {
    switch (ri(0, 6)) {
      case 0: fixed_case<1, 1>(); break;
      case 1: fixed_case<2, 3>(); break;
      case 2: fixed_case<4, 5>(); break;
      case 3: fixed_case<3, 2>(); break;
      case 4: dynamic_case<2>(); break;
      case 5: dynamic_case<5>(); break;
      default: {
        const MatrixXd J0 = rmat(2, 3);
        const VectorXd r0 = rvec(2);
        const int n = ri(5, 8);
        const std::vector<int> p = rnd_distinct(n, 3, std::vector<int>(3));
        verify<2>(MakeResidual<2, 3>({p[0], p[1], p[2]}, Fn<2, 3>{J0, r0}), p, J0, r0, n, true);
        verify<2>(MakeResidual<2, Eigen::Dynamic>({p[0], p[1], p[2]}, Fn<2, Eigen::Dynamic>{J0, r0}), p, J0, r0, n, true);
        check(throws([&] { MakeResidual<2, 3>({p[0], p[1]}, Fn<2, 3>{J0, r0}); }), "list with too few indices accepted");
        check(throws([&] { MakeResidual<2, 3>({p[0], p[1], p[2], p[0]}, Fn<2, 3>{J0, r0}); }), "list with too many indices accepted");
      }
    }
  }
  return 0;
}
