#include "lib/relativity/iers12010_relativistic_correction.cpp"
extern "C" void drv_rel(const double *sat, const double *sun, double GMe, double GMs, double J, double c, double beta, double gamma, double *o) {
  Eigen::Matrix<double, 6, 1> s, u;
  for (int i = 0; i < 6; i++) { s(i) = sat[i]; u(i) = sun[i]; }
  Eigen::Vector3d a = dso::iers2010_relativistic_acceleration(s, u, GMe, GMs, J, c, beta, gamma);
  o[0] = a(0); o[1] = a(1); o[2] = a(2);
}
extern "C" void drv_gr(const double *sat, const double *sun, double *o) {
  Eigen::Matrix<double, 6, 1> s, u;
  for (int i = 0; i < 6; i++) { s(i) = sat[i]; u(i) = sun[i]; }
  Eigen::Vector3d a = dso::iers2010_relativistic_acceleration(s, u);
  o[0] = a(0); o[1] = a(1); o[2] = a(2);
}
