#include "atmospheric_tides.hpp"
#include "ocean_tide.hpp"
#include <new>
#include <utility>
using namespace dso;
#define X extern "C"
// constituents: multipliers k[6*i..], phase factor pf[i], coefficients v (per constituent: C cos, S cos, C sin, S sin; row n, column m of a 5 x 5 field)
static TideAtlas make(const int *k, const double *pf, const double *v, int n, int deg, int ord) {
  TideAtlas a;
  for (int i = 0; i < n; i++) {
    const int *q = k + 6 * i;
    DoodsonConstituent d(q[0], q[1], q[2], q[3], q[4], q[5], pf[i]);
    TidalWave w(d);
    auto it = a.append_wave(w, deg, ord);
    const double *p = v + 100 * i;
    for (int m = 0; m <= ord; m++)
      for (int l = m; l <= deg; l++) {
        it->stokes_cos().C(l, m) = p[5 * l + m]; it->stokes_cos().S(l, m) = p[25 + 5 * l + m];
        it->stokes_sin().C(l, m) = p[50 + 5 * l + m]; it->stokes_sin().S(l, m) = p[75 + 5 * l + m];
      }
  }
  return a;
}
static GroopsTideModel model(const int *K, const double *a, int nf, int n) {
  Eigen::Matrix<int, Eigen::Dynamic, 6> d(nf, 6);
  Eigen::MatrixXd m(n, nf);
  for (int i = 0; i < nf; i++) for (int j = 0; j < 6; j++) d(i, j) = K[6 * i + j];
  for (int i = 0; i < n; i++) for (int j = 0; j < nf; j++) m(i, j) = a[8 * i + j];
  return GroopsTideModel(d, m);
}
static void out(const StokesCoeffs &m, int deg, int ord, double *o) {
  for (int c = 0; c <= ord; c++)
    for (int l = c; l <= deg; l++) { o[5 * l + c] = m.C(l, c); o[25 + 5 * l + c] = m.S(l, c); }
}
static void old(StokesCoeffs &m, int deg, int ord, const double *p) {
  for (int c = 0; c <= ord; c++)
    for (int l = c; l <= deg; l++) { m.C(l, c) = p[5 * l + c]; m.S(l, c) = p[25 + 5 * l + c]; }
}
X void drv_ocean(const MjdEpoch *tt, const MjdEpoch *ut1, const double *f, const int *k, const double *pf, const double *v, const double *w, int n, int deg, int ord, double *o, int *q) {
  OceanTide t(make(k, pf, v, n, deg, ord));
  old(t.stokes_coeffs(), deg, ord, w);
  q[0] = t.max_degree(); q[1] = t.max_order();
  q[2] = t.stokes_coeffs(*tt, *ut1, f);
  out(static_cast<const OceanTide &>(t).stokes_coeffs(), deg, ord, o);
}
X void drv_atm(const MjdEpoch *tt, const MjdEpoch *ut1, const double *f, const int *k, const double *pf, const double *v, const double *w, int n, int deg, int ord, double *o, int *q) {
  AtmosphericTide t(make(k, pf, v, n, deg, ord));
  old(t.stokes_coeffs(), deg, ord, w);
  q[0] = t.max_degree(); q[1] = t.max_order();
  q[2] = t.stokes_coeffs(*tt, *ut1, f);
  out(static_cast<const AtmosphericTide &>(t).stokes_coeffs(), deg, ord, o);
}
X void drv_adm(const MjdEpoch *tt, const MjdEpoch *ut1, const double *f, const int *k, const double *pf, const double *v, const double *w, int n, int deg, int ord, const int *K, const double *a, int nf, int how, double *o, int *q) {
  TideAtlas at(make(k, pf, v, n, deg, ord));
  if (how == 0) {
    OceanTide t(at, model(K, a, nf, n));
    old(t.stokes_coeffs(), deg, ord, w);
    q[0] = t.max_degree(); q[1] = t.max_order();
    q[2] = t.stokes_coeffs(*tt, *ut1, f);
    out(t.stokes_coeffs(), deg, ord, o);
  } else {
    OceanTide t(at);
    t.set_groops_admittance(model(K, a, nf, n));
    old(t.stokes_coeffs(), deg, ord, w);
    q[0] = t.max_degree(); q[1] = t.max_order();
    q[2] = t.stokes_coeffs(*tt, *ut1, f);
    out(t.stokes_coeffs(), deg, ord, o);
  }
}
// ownership of the admittance model: a holds one if ha, b if hb
X void drv_own(const MjdEpoch *tt, const MjdEpoch *ut1, const double *f, const int *k, const double *pf, const double *v, int n, int deg, int ord, const int *K, const double *a, int nf, int ha, int hb, int op, double *o, double *p) {
  TideAtlas at(make(k, pf, v, n, deg, ord));
  OceanTide A(at), B(at);
  if (ha) A.set_groops_admittance(model(K, a, nf, n));
  if (hb) B.set_groops_admittance(model(K, a + 16, nf, n));
  if (op == 0) { A = B; }
  else if (op == 1) { A = std::move(B); }
  else if (op == 2) { OceanTide C(A); A = std::move(C); B = A; }
  else if (op == 3) { OceanTide C(std::move(A)); A = C; A.stokes_coeffs(*tt, *ut1, f); }
  else if (op == 4) { OceanTide &r = A; A = r; }
  else if (op == 5) { std::swap(A, B); }
  else if (op == 6) { A.set_groops_admittance(model(K, a + 32, nf, n)); B = A; }
  else if (op == 7) { OceanTide &r = A; A = std::move(r); }
  A.stokes_coeffs(*tt, *ut1, f);
  out(A.stokes_coeffs(), deg, ord, o);
  if (op == 0 || op == 2 || op == 4 || op == 5 || op == 6 || op == 7) {
    B.stokes_coeffs(*tt, *ut1, f);
    out(B.stokes_coeffs(), deg, ord, p);
  }
}
// names: of the object given at construction, else that of the atlas
X void drv_name(const char *name, const int *k, const double *pf, const double *v, const MjdEpoch *tt, const MjdEpoch *ut1, const double *f, int kind, int nf, const int *K, const double *a, char *c, double *o) {
  TideAtlas at(make(k, pf, v, 1, 1, 1));
  at.name()[0] = 'a';
  if (kind == 0) { OceanTide t(at, name); for (int i = 0; i < 64; i++) c[i] = t.atlas().name()[i]; t.stokes_coeffs(*tt, *ut1, f); out(t.stokes_coeffs(), 1, 1, o); }
  else if (kind == 1) { AtmosphericTide t(at, name); for (int i = 0; i < 64; i++) c[i] = t.atlas().name()[i]; t.stokes_coeffs(*tt, *ut1, f); out(t.stokes_coeffs(), 1, 1, o); }
  else if (kind == 2) { OceanTide t(at, model(K, a, nf, 1), name); for (int i = 0; i < 64; i++) c[i] = t.atlas().name()[i]; t.stokes_coeffs(*tt, *ut1, f); out(t.stokes_coeffs(), 1, 1, o); }
  else if (kind == 3) { AtmosphericTide t(name); for (int i = 0; i < 64; i++) c[i] = t.atlas().name()[i]; t.stokes_coeffs() = StokesCoeffs(1); t.stokes_coeffs(*tt, *ut1, f); out(t.stokes_coeffs(), 1, 1, o); }
  else if (kind == 4) { OceanTide t(at); for (int i = 0; i < 64; i++) c[i] = t.atlas().name()[i]; }
  else if (kind == 5) { AtmosphericTide t(at); for (int i = 0; i < 64; i++) c[i] = t.atlas().name()[i]; }
  else if (kind == 6) { OceanTide t(at, model(K, a, nf, 1)); for (int i = 0; i < 64; i++) c[i] = t.atlas().name()[i]; }
}
X int drv_find(const int *k, const double *pf, const double *v, int n, int c0, int c1, int c2, int c3, int c4, int c5, double p, int *q) {
  TideAtlas a(make(k, pf, v, n, 1, 1));
  DoodsonConstituent d(c0, c1, c2, c3, c4, c5, p);
  const TideAtlas &ca = a;
  q[0] = (int)(ca.find_tidal_wave(d) - ca.waves().begin());
  return (int)(a.find_tidal_wave(d) - a.waves().begin());
}
X void drv_append(const int *k, const double *pf, const double *v, int n, int how, int deg, int ord, int *q) {
  TideAtlas a(make(k, pf, v, n, 2, 1));
  const int *c = k + 6 * n;
  TidalWave w(DoodsonConstituent(c[0], c[1], c[2], c[3], c[4], c[5], pf[n]));
  auto it = how ? a.append_wave(TidalConstituent(w, deg, ord)) : a.append_wave(w, deg, ord);
  q[0] = (int)a.waves().size(); q[1] = (int)(it - a.waves().begin());
  q[2] = it->stokes_cos().max_degree(); q[3] = it->stokes_sin().max_degree(); q[4] = it->stokes_cos().max_order(); q[5] = it->stokes_sin().max_order();
  int o; q[6] = a.max_atlas_degree(o); q[7] = o; q[8] = a.max_atlas_degree();
  for (int i = 0; i < 6; i++) q[9 + i] = it->doodson()(i);
}
