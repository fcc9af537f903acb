#include "gravity.hpp"
#include "lib/gravity/forward_column_alf.cpp"
using namespace dso;
using M = CoeffMatrix2D<MatrixStorageType::LwTriangularColWise>;
#define X extern "C"
X int drv_alf(double theta, int n, int m, M *p) { return normalised_associated_legendre_functions(theta, n, m, *p); }
X int drv_dalf(double theta, int n, int m, M *p, M *o) { return normalised_associated_legendre_functions(theta, n, m, *p, *o); }
