#include "eop.hpp"
#include <new>
using namespace dso;
#define X extern "C"
// record k: epoch (day d[k], second s[k]), values v[8k..]
static void make(EopSeries &e, const int *d, const double *s, const double *v, int n) {
  for (int k = 0; k < n; k++) {
    EopRecord r;
    r.t() = MjdEpoch(d[k], FractionalSeconds{s[k]});
    const double *p = v + 9 * k;
    r.xp() = p[0]; r.yp() = p[1]; r.dut() = p[2]; r.lod() = p[3]; r.dX() = p[4]; r.dY() = p[5]; r.dat() = p[6]; r.xp_rate() = p[7]; r.yp_rate() = p[8];
    e.push_back(r);
  }
}
static void get(const EopRecord &r, double *o, int *od) {
  o[0] = r.xp(); o[1] = r.yp(); o[2] = r.dut(); o[3] = r.lod(); o[4] = r.dX(); o[5] = r.dY(); o[6] = r.dat(); o[7] = r.xp_rate(); o[8] = r.yp_rate();
  o[9] = r.t().seconds(); od[0] = r.t().imjd();
}
X int drv_interp(const int *d, const double *s, const double *v, int n, int hint, const MjdEpoch *t, int degree, double *o, int *od) {
  EopSeries e;
  make(e, d, s, v, n);
  e.reset_vec_iterator(hint);
  EopRecord r;
  int rc = (int)e.interpolate(*t, r, degree);
  get(r, o, od);
  return rc;
}
X int drv_interp_default(const int *d, const double *s, const double *v, int n, const MjdEpoch *t, double *o, int *od) {
  EopSeries e;
  make(e, d, s, v, n);
  e.reset_vec_iterator();
  EopRecord r;
  int rc = (int)e.interpolate(*t, r);
  get(r, o, od);
  return rc;
}
X int drv_approx(const int *d, const double *s, const double *v, int n, int hint, const MjdEpoch *t, double *o) {
  EopSeries e;
  make(e, d, s, v, n);
  e.reset_vec_iterator(hint);
  return (int)e.approx_dut1(*t, o[0]);
}
// a query at t1 between construction and the query at t
X int drv_history(const int *d, const double *s, const double *v, int n, const MjdEpoch *t1, const MjdEpoch *t, double *o, int *od) {
  EopSeries e;
  make(e, d, s, v, n);
  e.reset_vec_iterator();
  EopRecord r0, r;
  double x;
  e.interpolate(*t1, r0, 3);
  e.approx_dut1(*t1, x);
  int rc = (int)e.interpolate(*t, r, 3);
  get(r, o, od);
  return rc;
}
// query on a copy after the original is gone
X int drv_copy(const int *d, const double *s, const double *v, int n, const MjdEpoch *t1, const MjdEpoch *t, double *o, int *od) {
  EopSeries b;
  {
    EopSeries a;
    make(a, d, s, v, n);
    a.reset_vec_iterator();
    double x;
    a.approx_dut1(*t1, x);
    b = a;
  }
  EopRecord r;
  int rc = (int)b.interpolate(*t, r, 3);
  get(r, o, od);
  double y;
  b.approx_dut1(*t, y);
  return rc;
}
X bool drv_out(int i) { return EopSeries::out_of_bounds((EopSeries::EopInterpolationResult)i); }
X int drv_regularize(const int *d, const double *s, const double *v, int n, int back, double *o, int *od) {
  EopSeries e;
  make(e, d, s, v, n);
  if (back) e.deregularize(); else e.regularize();
  int k = 0;
  for (const auto &r : e.give_me_the_vector()) { get(r, o + 10 * k, od + k); ++k; }
  return e.num_entries();
}
X int drv_there_and_back(const int *d, const double *s, const double *v, int n, double *o, int *od) {
  EopSeries e;
  make(e, d, s, v, n);
  e.regularize(); e.deregularize();
  int k = 0;
  for (const auto &r : e.give_me_the_vector()) { get(r, o + 10 * k, od + k); ++k; }
  return e.num_entries();
}
X int drv_meta(const int *d, const double *s, const double *v, int n, int *od, double *o) {
  EopSeries e;
  e.reserve(n);
  make(e, d, s, v, n);
  od[0] = e.first_epoch().imjd(); od[1] = e.last_epoch().imjd(); o[0] = e.first_epoch().seconds(); o[1] = e.last_epoch().seconds();
  int k = e.num_entries();
  e.clear();
  od[2] = e.num_entries();
  return k;
}
