// Shared helpers of the replay harnesses: run the real code of /repo on random and directed inputs and compare
// with the property.  usage: exe SEED SECONDS; exit 0 = nothing found, 1 = failing input printed.
#pragma once
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <limits>
#include <random>
#include <sstream>
#include <string>
#include <vector>

#include <Eigen/Dense>
#include "mini_opt/qp.hpp"

using namespace mini_opt;
using Eigen::MatrixXd;
using Eigen::VectorXd;

static std::mt19937_64 rng;
static double t_end;
static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static void init(int argc, char** argv) {
  rng.seed(argc > 1 ? std::atoll(argv[1]) : 1);
  t_end = now() + (argc > 2 ? std::atof(argv[2]) : 5.0);
}
static bool more() { return now() < t_end; }
static int ri(int lo, int hi) { return std::uniform_int_distribution<int>(lo, hi)(rng); }
static double rd(double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(rng); }
static bool rb() { return ri(0, 1) == 1; }
static MatrixXd rmat(int r, int c, double s = 1.0) {
  MatrixXd m(r, c);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j) m(i, j) = rd(-s, s);
  return m;
}
static VectorXd rvec(int n, double s = 1.0) { return rmat(n, 1, s); }

static std::string g_context;
template <typename T>
static std::string str(const T& x) {
  std::ostringstream s;
  s.precision(17);
  s << x;
  return s.str();
}
static void context(const std::string& s) { g_context = s; }
[[noreturn]] static void fail(const std::string& what) {
  std::printf("FAILING INPUT: %s\n%s\n", what.c_str(), g_context.c_str());
  std::fflush(stdout);
  std::_Exit(1);
}
static void check(bool ok, const std::string& what) {
  if (!ok) fail(what);
}
static bool near(double a, double b, double tol = 1e-9) {
  if (a == b) return true;
  if (std::isnan(a) && std::isnan(b)) return true;
  return std::abs(a - b) <= tol * (1 + std::abs(a) + std::abs(b));
}
static void check_near(double a, double b, const std::string& what, double tol = 1e-9) {
  if (!near(a, b, tol)) fail(what + ": got " + str(a) + ", expected " + str(b));
}
template <typename F>
static bool throws(F&& f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
// runs the body; an exception nobody expects is a failing input
template <typename F>
static void nothrow(const std::string& what, F&& f) {
  try {
    f();
  } catch (const std::exception& e) {
    fail(what + " raised: " + e.what());
  }
}
