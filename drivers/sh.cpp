#include "gravity.hpp"
#include "lib/gravity/sh_cunningham_normalized_gradient.cpp"
#include "lib/gravity/point_mass_acceleration.cpp"
using namespace dso;
using M = CoeffMatrix2D<MatrixStorageType::LwTriangularColWise>;
#define X extern "C"
static void put(const Eigen::Matrix<double, 3, 1> &a, const Eigen::Matrix<double, 3, 3> &g, double *o) {
  o[0] = a(0); o[1] = a(1); o[2] = a(2);
  o[3] = g(0, 0); o[4] = g(0, 1); o[5] = g(0, 2);
  o[6] = g(1, 0); o[7] = g(1, 1); o[8] = g(1, 2);
  o[9] = g(2, 0); o[10] = g(2, 1); o[11] = g(2, 2);
}
X int drv_sh(const StokesCoeffs *cs, double x, double y, double z, int n, int m, double Re, double GM, M *w, M *p, double *o) {
  Eigen::Matrix<double, 3, 1> r(x, y, z), a;
  Eigen::Matrix<double, 3, 3> g;
  int s = sh2gradient_cunningham(*cs, r, a, g, n, m, Re, GM, w, p);
  put(a, g, o);
  return s;
}
X void drv_pm(double x, double y, double z, double a, double b, double c, double GM, double *o) {
  Eigen::Matrix<double, 3, 1> r(x, y, z), q(a, b, c), s = point_mass_acceleration(r, q, GM);
  o[0] = s(0); o[1] = s(1); o[2] = s(2);
}
X void drv_pmj(double x, double y, double z, double a, double b, double c, double GM, double *o) {
  Eigen::Matrix<double, 3, 1> r(x, y, z), q(a, b, c);
  Eigen::Matrix<double, 3, 3> g;
  Eigen::Matrix<double, 3, 1> s = point_mass_acceleration(r, q, GM, g);
  put(s, g, o);
}
