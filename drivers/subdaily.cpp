#include "eop.hpp"
using namespace dso;
#define X extern "C"
X int drv_ocean(const double *f, double g, double *o) { return deop_ocean_tide(f, g, o[0], o[1], o[2], o[3]); }
X int drv_libration(const double *f, double g, double *o) { return deop_libration(f, g, o[0], o[1], o[2], o[3]); }
