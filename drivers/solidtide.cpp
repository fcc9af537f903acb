#include "solid_earth_tide.hpp"
using namespace dso;
#define X extern "C"
typedef Eigen::Matrix<double, 3, 1> V3;
static inline V3 vec(const double *p) { V3 v; v(0) = p[0]; v(1) = p[1]; v(2) = p[2]; return v; }
static inline void out(const StokesCoeffs &m, double *o, double *s) {
  for (int i = 0; i <= 4; i++)
    for (int j = 0; j <= i; j++) { o[5 * i + j] = m.C(i, j); s[5 * i + j] = m.S(i, j); }
}
// the object's coefficients hold arbitrary old values
X void drv_geo(const MjdEpoch *tt, const MjdEpoch *ut1, const double *moon, const double *sun, const double *f, const double *oldc, const double *olds,
               double GMe, double Re, double GMs, double GMm, double *o, double *s, double *q) {
  SolidEarthTide t(GMe, Re, GMs, GMm);
  StokesCoeffs &m = const_cast<StokesCoeffs &>(t.stokes_coeffs());
  for (int i = 0; i <= 4; i++)
    for (int j = 0; j <= i; j++) { m.C(i, j) = oldc[5 * i + j]; m.S(i, j) = olds[5 * i + j]; }
  q[0] = t.stokes_coeffs(*tt, *ut1, vec(moon), vec(sun), f);
  q[1] = m.max_degree(); q[2] = m.max_order(); q[3] = m.GM(); q[4] = m.Re(); q[5] = m.normalized();
  out(m, o, s);
}
X void drv_geo0(const MjdEpoch *tt, const MjdEpoch *ut1, const double *moon, const double *sun, const double *f, double *o, double *s, double *q) {
  SolidEarthTide t;
  t.stokes_coeffs(*tt, *ut1, vec(moon), vec(sun), f);
  q[3] = t.stokes_coeffs().GM(); q[4] = t.stokes_coeffs().Re();
  out(t.stokes_coeffs(), o, s);
}
X void drv_disp(const MjdEpoch *tt, const MjdEpoch *ut1, const double *sta, const double *moon, const double *sun, const double *f,
                double GMe, double Re, double GMs, double GMm, double *o) {
  SolidEarthTide t(GMe, Re, GMs, GMm);
  V3 d = t.displacement(*tt, *ut1, vec(sta), vec(moon), vec(sun), f);
  o[0] = d(0); o[1] = d(1); o[2] = d(2);
}
X void drv_disp0(const MjdEpoch *tt, const MjdEpoch *ut1, const double *sta, const double *moon, const double *sun, const double *f, double *o) {
  SolidEarthTide t;
  V3 d = t.displacement(*tt, *ut1, vec(sta), vec(moon), vec(sun), f);
  o[0] = d(0); o[1] = d(1); o[2] = d(2);
}
