#include "iau.hpp"
using namespace dso;
#define X extern "C"
X int drv_xy(const MjdEpoch *e, double *o, double *fa) { return xycip06a(*e, o[0], o[1], fa); }
X int drv_xy0(const MjdEpoch *e, double *o) { return xycip06a(*e, o[0], o[1]); }
X int drv_ex(const MjdEpoch *e, double *o, double *fa) { return extra::xycip06a(*e, o[0], o[1], fa); }
X double drv_s(const MjdEpoch *e, double x, double y) { return s06(*e, x, y); }
X double drv_sf(const MjdEpoch *e, double x, double y, const double *fa) { return s06(*e, x, y, fa); }
