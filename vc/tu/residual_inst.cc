// Instantiates the residual templates of /repo so that clang produces their concrete ASTs.  The sizes 37 and 41 occur
// nowhere else; the verifier reads them as the symbolic dimensions R and P (any R, P >= 0), see TEMPLATE_DIMS in vc/exec.py.
#include "mini_opt/residual.hpp"
namespace mini_opt {
template <int R, int P>
struct UserFn {
  Eigen::Matrix<double, R, 1> operator()(const Eigen::Matrix<double, P, 1>& p,
                                         Eigen::Matrix<double, R, P>* J) const;
};
Residual vc_fixed(const std::array<int, 41>& index) {
  return MakeResidual<37, 41>(index, UserFn<37, 41>{});
}
Residual vc_dynamic(const std::vector<int>& index) {
  return MakeResidual<37, Eigen::Dynamic>(index, UserFn<37, Eigen::Dynamic>{});
}
Residual vc_list(std::initializer_list<int> index) {
  return MakeResidual<37, 41>(index, UserFn<37, 41>{});
}
Residual vc_list_dynamic(std::initializer_list<int> index) {
  return MakeResidual<37, Eigen::Dynamic>(index, UserFn<37, Eigen::Dynamic>{});
}
}  // namespace mini_opt
