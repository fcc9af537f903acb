#include "fcn.hpp"
using namespace dso;
#define X extern "C"
static inline void put(const fcn::FcnResult &r, double *o) { o[0] = r.xcip; o[1] = r.ycip; o[2] = r.sxcip; o[3] = r.sycip; }
X void drv_fcn(const int *d, const double *s, const double *v, int n, const MjdEpoch *t, double *o) {
  std::vector<fcn::LambertCoefficients> l;
  l.reserve(n);
  for (int k = 0; k < n; k++)
    l.emplace_back(MjdEpoch(d[k], FractionalSeconds{s[k]}), v[3 * k], v[3 * k + 1], v[3 * k + 2]);
  put(lambert_fcn(*t, l), o);
}
X int drv_table(int *d, double *s, double *v) {
  auto l = fcn::load_iers10_table52c();
  int k = 0;
  for (const auto &e : l) { d[k] = e.t.imjd(); s[k] = e.t.seconds(); v[3 * k] = e.real; v[3 * k + 1] = e.imag; v[3 * k + 2] = e.sigma; ++k; }
  return k;
}
X void drv_default(const MjdEpoch *t, double *o) { put(lambert_fcn(*t), o); }
X void drv_get(double r, double i, double s, double *o) {
  fcn::LambertCoefficients c(MjdEpoch(), r, i, s);
  o[0] = c.xc(); o[1] = c.xs(); o[2] = c.yc(); o[3] = c.ys(); o[4] = c.sx(); o[5] = c.sy();
}
