#include "pole_tide.hpp"
#include <new>
using namespace dso;
#define X extern "C"
X void drv_secular(const MjdEpoch *t, double *o) { auto s = secular_pole(*t); o[0] = s.xs; o[1] = s.ys; }
X int drv_solid(const MjdEpoch *t, double xp, double yp, double *o) { return PoleTide::stokes_coeffs(*t, xp, yp, o[0], o[1]); }
X int drv_ocean(const MjdEpoch *t, double xp, double yp, double *o) { return OceanPoleTide::stokes_coeffs(*t, xp, yp, o[0], o[1]); }
X void drv_def(const MjdEpoch *t, double xp, double yp, const SphericalCrd *s, double *o) {
  auto d = PoleTide::deformation(*t, xp, yp, SphericalCrdConstView(*s)); o[0] = d.x(); o[1] = d.y(); o[2] = d.z(); }
X void drv_odef(const MjdEpoch *t, double xp, double yp, const SphericalCrd *s, const double *k, double Re, double GM, double om, double G, double ge, double *o) {
  OceanPoleTideDesaiCoeffs c; c.rR = k[0]; c.rI = k[1]; c.nR = k[2]; c.nI = k[3]; c.eR = k[4]; c.eI = k[5];
  auto d = OceanPoleTide::deformation(*t, xp, yp, SphericalCrdConstView(*s), c, Re, GM, om, G, ge); o[0] = d.x(); o[1] = d.y(); o[2] = d.z(); }
X void drv_odef0(const MjdEpoch *t, double xp, double yp, const SphericalCrd *s, const double *k, double *o) {
  OceanPoleTideDesaiCoeffs c; c.rR = k[0]; c.rI = k[1]; c.nR = k[2]; c.nI = k[3]; c.eR = k[4]; c.eI = k[5];
  auto d = OceanPoleTide::deformation(*t, xp, yp, SphericalCrdConstView(*s), c); o[0] = d.x(); o[1] = d.y(); o[2] = d.z(); }
X int drv_ogeo(OceanPoleTide *p, const MjdEpoch *t, double xp, double yp, int n, int m, double om, double G, double ge) { return p->stokes_coeffs(*t, xp, yp, n, m, om, G, ge); }
X int drv_ogeo0(OceanPoleTide *p, const MjdEpoch *t, double xp, double yp) { return p->stokes_coeffs(*t, xp, yp); }
X const StokesCoeffs *drv_omcs(const OceanPoleTide *p) { return &p->stokes_coeffs(); }
X int drv_odeg(const OceanPoleTide *p) { return p->max_degree(); }
X int drv_oord(const OceanPoleTide *p) { return p->max_order(); }
X void drv_octor(OceanPoleTide *p, int n, int m, const char *fn) { new (p) OceanPoleTide(n, m, fn); }
X void drv_octor1(OceanPoleTide *p, int n, const char *fn) { new (p) OceanPoleTide(n, fn); }
X void drv_octor0(OceanPoleTide *p, const char *fn) { new (p) OceanPoleTide(fn); }
