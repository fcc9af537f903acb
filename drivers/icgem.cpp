#include "geodesy/core/geoconst.hpp"
#include "icgemio.hpp"
#include <new>
using namespace dso;
#define X extern "C"
extern "C" void vfn_mark(int) noexcept;
/* header items */
X void drv_header(const char *fn, double *o, int *k, char *s) {
  Icgem g(fn);
  o[0] = g.gm();
  o[1] = g.radius();
  k[0] = g.max_degree();
  k[1] = (int)g.errors();
  k[2] = (int)g.version();
  k[3] = g.is_normalized();
  std::strcpy(s, g.product_type());
  std::strcpy(s + 256, g.model_name());
  std::strcpy(s + 512, g.tide_system());
  vfn_mark(1);
}
static void give(int st, StokesCoeffs &c, double *o, int *k) {
  k[0] = st;
  k[1] = c.max_degree();
  k[2] = c.max_order();
  k[3] = c.normalized();
  o[0] = c.GM();
  o[1] = c.Re();
  if (!st) {
    int p = 2;
    for (int m = 0; m <= c.max_order(); m++)
      for (int n = m; n <= c.max_degree(); n++) {
        o[p++] = c.C(n, m);
        o[p++] = c.S(n, m);
      }
  }
  vfn_mark(2);
}
/* coefficients to degree l, order m at epoch t; c0 x c1: what the instance held */
X void drv_data(const char *fn, long t, int l, int m, int c0, int c1, double *o, int *k) {
  Icgem g(fn);
  vfn_mark(1);
  StokesCoeffs c(c0, c1, 1e0, 1e0);
  for (int i = 0; i <= c1; i++)
    for (int j = i; j <= c0; j++) {
      c.C(j, i) = 77e0;
      c.S(j, i) = 78e0;
    }
  c.normalized() = false;
  const int st = g.parse_data(l, m, Icgem::Datetime(t), c);
  give(st, c, o, k);
}
X void drv_all(const char *fn, long t, int c0, int c1, double *o, int *k) {
  Icgem g(fn);
  vfn_mark(1);
  StokesCoeffs c(c0, c1, 1e0, 1e0);
  const int st = g.parse_data(Icgem::Datetime(t), c);
  give(st, c, o, k);
}
X void drv_enum(int *o) {
  o[0] = (int)Icgem::ErrorModel::No;
  o[1] = (int)Icgem::ErrorModel::Calibrated;
  o[2] = (int)Icgem::ErrorModel::Formal;
  o[3] = (int)Icgem::ErrorModel::CalibratedAndFormal;
  o[4] = (int)Icgem::IcgemVersion::v10;
  o[5] = (int)Icgem::IcgemVersion::v20;
  o[6] = (int)DateTimeDifferenceType::FractionalYears;
}
X double drv_turn() { return D2PI; }
