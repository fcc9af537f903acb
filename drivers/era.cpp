#include "iau.hpp"
#include "earth_rotation.hpp"
#include "lib/iau/era00.cpp"
#include "lib/iau/gmst.cpp"
#include "lib/iau/gmst82.cpp"
#include "lib/iau/dgmst.cpp"
using namespace dso;
#define X extern "C"
X double drv_era(const MjdEpoch *u) { return era00(*u); }
X double drv_gmst(const MjdEpoch *e, const MjdEpoch *u) { return gmst(*e, *u); }
X double drv_gmst82(const MjdEpoch *u) { return gmst82(*u); }
X double drv_dgmst(const MjdEpoch *e) { return dgmst(*e); }
X double drv_sp(const MjdEpoch *e) { return sp00(*e); }
X double drv_rate(double lod) { return earth_rotation_rate(lod); }
X void drv_axis(double lod, double *o) { Eigen::Vector3d v = earth_rotation_axis(lod); o[0] = v(0); o[1] = v(1); o[2] = v(2); }
