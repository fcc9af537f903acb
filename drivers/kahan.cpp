#include "kahan.hpp"
#include <new>
using dso::KahanSum;
#define X extern "C"
X void drv_add(KahanSum *p, double v) { *p += v; }
X double drv_get(const KahanSum *p) { return static_cast<double>(*p); }
X void drv_init(KahanSum *p, double v) { new (p) KahanSum(v); }
X void drv_def(KahanSum *p) { new (p) KahanSum(); }
