// included before everything else: Eigen's own assertions report a failing input
#pragma once
#include <cstdio>
#include <cstdlib>
inline void vp_eigen_assert(const char* what, const char* file, int line) {
  std::printf("FAILING INPUT: Eigen assertion %s (%s:%d)\n", what, file, line);
  extern void vp_print_context();
  vp_print_context();
  std::fflush(stdout);
  std::_Exit(1);
}
#define eigen_assert(X) ((X) ? (void)0 : vp_eigen_assert(#X, __FILE__, __LINE__))
