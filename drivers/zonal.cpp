#include "eop.hpp"
using namespace dso;
#define X extern "C"
X int drv_zonal(const double *f, double *o) { return deop_zonal_tide(f, o[0], o[1], o[2]); }
