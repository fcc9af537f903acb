#include "eop.hpp"
#include "fcn.hpp"
using namespace dso;
#define X extern "C"
extern "C" void vfn_mark(int) noexcept;
static void rec(const EopRecord &r, double *o, int *od) {
  o[0] = r.xp();
  o[1] = r.yp();
  o[2] = r.dut();
  o[3] = r.lod();
  o[4] = r.dX();
  o[5] = r.dY();
  o[6] = r.dat();
  o[7] = r.xp_rate();
  o[8] = r.yp_rate();
  o[9] = r.t().seconds();
  od[0] = r.t().imjd();
}
/* records of [a, b) read into a series that held something; a look-up right after */
X void drv_c04(const char *fn, const MjdEpoch *a, const MjdEpoch *b, int have, const MjdEpoch *q, double *o, int *od, int *k) {
  EopSeries e;
  for (int i = 0; i < have; i++) {
    EopRecord r;
    r.t() = MjdEpoch(30000 + i, FractionalSeconds{0e0});
    r.xp() = r.yp() = r.dut() = r.lod() = r.dX() = r.dY() = r.dat() = r.xp_rate() = r.yp_rate() = 7e0;
    e.push_back(r);
  }
  e.reset_vec_iterator(have > 2 ? have - 2 : -1);
  k[0] = parse_iers_C04(fn, *a, *b, e);
  k[1] = e.num_entries();
  if (!k[0]) {
    int n = 0;
    for (const auto &r : e.give_me_the_vector()) {
      rec(r, o + 10 * n, od + n);
      ++n;
    }
    if (k[1] > 1) {
      EopSeries f;
      for (const auto &r : e.give_me_the_vector())
        f.push_back(r);
      f.reset_vec_iterator();
      k[2] = (int)e.approx_dut1(*q, o[498]);
      k[3] = (int)f.approx_dut1(*q, o[499]);
    }
  }
  vfn_mark(1);
}
X void drv_lambert(const char *fn, const MjdEpoch *a, const MjdEpoch *b, int have, int all, double *o, int *od, int *k) {
  std::vector<fcn::LambertCoefficients> l;
  for (int i = 0; i < have; i++)
    l.emplace_back(MjdEpoch(30000 + i, FractionalSeconds{0e0}), 7e0, 7e0, 7e0);
  k[0] = all ? parse_lambert_coefficients(fn, l) : parse_lambert_coefficients(fn, *a, *b, l);
  k[1] = (int)l.size();
  if (!k[0]) {
    int n = 0;
    for (const auto &c : l) {
      o[4 * n] = c.t.seconds();
      o[4 * n + 1] = c.real;
      o[4 * n + 2] = c.imag;
      o[4 * n + 3] = c.sigma;
      od[n] = c.t.imjd();
      ++n;
    }
  }
  vfn_mark(2);
}
