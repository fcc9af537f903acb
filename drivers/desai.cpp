#include "pole_tide.hpp"
#include <algorithm>
#include <cassert>
#include <cstring>
#include <new>
#include <vector>
#include "geodesy/units.hpp"
using namespace dso;
#define X extern "C"
using M = CoeffMatrix2D<MatrixStorageType::LwTriangularColWise>;
extern "C" void vfn_mark(int) noexcept;
/* deformation coefficients at n sites (radius, latitude, longitude) */
X void drv_sites(const char *fn, const double *p, int n, int have, double *o, int *k) {
  std::vector<SphericalCrd> s;
  for (int i = 0; i < n; i++)
    s.push_back(SphericalCrd{p[3 * i], p[3 * i + 1], p[3 * i + 2]});
  std::vector<OceanPoleTideDesaiCoeffs> c;
  for (int i = 0; i < have; i++)
    c.push_back(OceanPoleTideDesaiCoeffs{91e0, 92e0, 93e0, 94e0, 95e0, 96e0});
  k[0] = get_desai_ocp_deformation_coeffs(fn, s, c);
  k[1] = (int)c.size();
  if (!k[0])
    for (std::size_t i = 0; i < c.size(); i++) {
      o[6 * i] = c[i].rR;
      o[6 * i + 1] = c[i].rI;
      o[6 * i + 2] = c[i].nR;
      o[6 * i + 3] = c[i].nI;
      o[6 * i + 4] = c[i].eR;
      o[6 * i + 5] = c[i].eI;
    }
  vfn_mark(1);
}
/* expansion coefficients to degree l and order m; the matrices held something */
X void drv_model(const char *fn, int l, int m, int rows, double *o, int *k) {
  M a(rows, rows), b(rows, rows), c(rows, rows), d(rows, rows);
  a.fill_with(77e0);
  b.fill_with(77e0);
  c.fill_with(77e0);
  d.fill_with(77e0);
  k[0] = pole_tide_details::parse_desai02_coeffs(fn, l, m, a, c, b, d);
  k[1] = a.rows();
  k[2] = b.rows();
  k[3] = c.rows();
  k[4] = d.rows();
  if (!k[0]) {
    int p = 0;
    for (int i = 0; i < a.rows(); i++)
      for (int j = 0; j <= i; j++) {
        o[p++] = a(i, j);
        o[p++] = b(i, j);
        o[p++] = c(i, j);
        o[p++] = d(i, j);
      }
  }
  vfn_mark(2);
}
X double drv_deg() { return rad2deg(1e0); }
X double drv_turn() { return D2PI; }
