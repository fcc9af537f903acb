#include "fundarg.hpp"
#include "lib/fundarg/fundarg.cpp"
using namespace dso;
#define X extern "C"
#define D(n) \
  X double drv_##n(double t) { return iers2010::n(t); } \
  X double drv_e_##n(const MjdEpoch *e) { return dso::n(*e); }
D(fal03) D(falp03) D(faf03) D(fad03) D(faom03)
D(dfal03) D(dfalp03) D(dfaf03) D(dfad03) D(dfaom03)
D(fame03) D(fave03) D(fae03) D(fama03) D(faju03) D(fasa03) D(faur03) D(fane03) D(fapa03)
X double *drv_all(double t, double *o) { return iers2010::fundarg(t, o); }
X double *drv_e_all(const MjdEpoch *e, double *o) { return dso::fundarg(*e, o); }
X double *drv_dall(double t, double *o) { return iers2010::fundarg_derivs(t, o); }
X double *drv_e_dall(const MjdEpoch *e, double *o) { return dso::fundarg_derivs(*e, o); }
