#include <algorithm>
#include <new>
#include <utility>
#include "coeff_matrix_2d.hpp"
using namespace dso;
#define X extern "C"
#define D(L)                                                                   \
  using M_##L = CoeffMatrix2D<MatrixStorageType::L>;                           \
  X void drv_ctor_##L(M_##L *p, int rows, int cols) { new (p) M_##L(rows, cols); } \
  X void drv_cctor_##L(M_##L *p, const M_##L *o) { new (p) M_##L(*o); }        \
  X void drv_mctor_##L(M_##L *p, M_##L *o) { new (p) M_##L(std::move(*o)); }   \
  X void drv_cassign_##L(M_##L *p, const M_##L *o) { *p = *o; }                \
  X void drv_cassignself_##L(M_##L *p) { *p = *p; }                            \
  X void drv_massign_##L(M_##L *p, M_##L *o) { *p = std::move(*o); }           \
  X void drv_massignself_##L(M_##L *p) { *p = std::move(*p); }                 \
  X void drv_swap_##L(M_##L *p, M_##L *o) { p->swap(*o); }                     \
  X void drv_swapf_##L(M_##L *p, M_##L *o) { dso::swap(*p, *o); }              \
  X void drv_swapself_##L(M_##L *p) { p->swap(*p); }                           \
  X void drv_resize_##L(M_##L *p, int rows, int cols) { p->resize(rows, cols); } \
  X void drv_cresize_##L(M_##L *p, int rows, int cols) { p->cresize(rows, cols); } \
  X void drv_fill_##L(M_##L *p, double v) { p->fill_with(v); }                 \
  X void drv_mul_##L(M_##L *p, double v) { p->multiply(v); }                   \
  X void drv_dtor_##L(M_##L *p) { p->~M_##L(); }                               \
  X double *drv_at_##L(M_##L *p, int i, int j) { return &(*p)(i, j); }         \
  X const double *drv_atc_##L(const M_##L *p, int i, int j) { return &(*p)(i, j); } \
  X const double *drv_slice_##L(const M_##L *p, int i) { return p->slice(i); } \
  X double *drv_slicem_##L(M_##L *p, int i) { return p->slice(i); }            \
  X const double *drv_data_##L(const M_##L *p) { return p->data(); }           \
  X double *drv_datam_##L(M_##L *p) { return p->data(); }                      \
  X int drv_rows_##L(const M_##L *p) { return p->rows(); }                     \
  X int drv_cols_##L(const M_##L *p) { return p->cols(); }                     \
  X long drv_num_##L(const M_##L *p) { return p->num_elements(); }             \
  X void drv_ctorsum_##L(M_##L *p, const M_##L *a, const M_##L *b) { new (p) M_##L(*a + *b); } \
  X void drv_ctorscale_##L(M_##L *p, const M_##L *a, double k) { new (p) M_##L(*a * k); } \
  X void drv_ctorscale2_##L(M_##L *p, const M_##L *a, double k) { new (p) M_##L(k * *a); } \
  X void drv_ctorlin_##L(M_##L *p, const M_##L *a, const M_##L *b, double k, double q) { new (p) M_##L(k * *a + *b * q); } \
  X void drv_ctoraxpy_##L(M_##L *p, const M_##L *a, const M_##L *b, double k) { new (p) M_##L(*a + *b * k); } \
  X void drv_ctorsum3_##L(M_##L *p, const M_##L *a, const M_##L *b, const M_##L *c) { new (p) M_##L(*a + *b + *c); } \
  X void drv_ctorsum3s_##L(M_##L *p, const M_##L *a, const M_##L *b, const M_##L *c, double k) { new (p) M_##L(*a + *b + k * *c); } \
  X void drv_pluseq_##L(M_##L *p, const M_##L *a) { *p += *a; }                \
  X void drv_pluseqself_##L(M_##L *p) { *p += *p; }                            \
  X void drv_pluseqs_##L(M_##L *p, const M_##L *a, double k) { *p += *a * k; } \
  X void drv_pluseqsum_##L(M_##L *p, const M_##L *a, const M_##L *b) { *p += *a + *b; } \
  X void drv_pluseqr_##L(M_##L *p, const M_##L *a, int nr, int nc) { *p += a->reduced_view(nr, nc); } \
  X void drv_pluseqrs_##L(M_##L *p, const M_##L *a, int nr, int nc, double k) { *p += a->reduced_view(nr, nc) * k; } \
  X void drv_pluseqrs2_##L(M_##L *p, const M_##L *a, int nr, int nc, double k) { *p += k * a->reduced_view(nr, nc); } \
  X void drv_pluseqrr_##L(M_##L *p, const M_##L *a, const M_##L *b, int nr, int nc) { *p += a->reduced_view(nr, nc) + b->reduced_view(nr, nc); } \
  X void drv_ctorrr_##L(M_##L *p, const M_##L *a, const M_##L *b, int nr, int nc) { new (p) M_##L(a->reduced_view(nr, nc) + b->reduced_view(nr, nc)); } \
  X void drv_ctorrs_##L(M_##L *p, const M_##L *a, const M_##L *b, int nr, int nc, double k) { new (p) M_##L(a->reduced_view(nr, nc) + b->reduced_view(nr, nc) * k); } \
  X void drv_ctorrm_##L(M_##L *p, const M_##L *a, const M_##L *b, int nr, int nc, double k) { new (p) M_##L(a->reduced_view(nr, nc) + *b * k); } \
  X void drv_ctorrsum_##L(M_##L *p, const M_##L *a, const M_##L *b, const M_##L *c, int nr, int nc, double k) { new (p) M_##L((a->reduced_view(nr, nc) + b->reduced_view(nr, nc)) + k * c->reduced_view(nr, nc)); } \
  X void drv_ctorrsum2_##L(M_##L *p, const M_##L *a, const M_##L *b, const M_##L *c, int nr, int nc) { new (p) M_##L(a->reduced_view(nr, nc) + (b->reduced_view(nr, nc) + c->reduced_view(nr, nc))); } \
  X void drv_pluseqrsum_##L(M_##L *p, const M_##L *a, const M_##L *b, const M_##L *c, int nr, int nc) { *p += (a->reduced_view(nr, nc) + b->reduced_view(nr, nc)) + c->reduced_view(nr, nc); } \
  X void drv_pluseqrself_##L(M_##L *p, int nr, int nc) { *p += p->reduced_view(nr, nc); } \
  X void drv_pluseqlin_##L(M_##L *p, const M_##L *a, const M_##L *b, double k, double q) { *p += *a * k + q * *b; } \
  X void drv_assignsum_##L(M_##L *p, const M_##L *a, const M_##L *b) { *p = *a + *b; } \
  X void drv_assignself_##L(M_##L *p, const M_##L *a, double k) { *p = *p + *a * k; } \
  X void drv_assignscale_##L(M_##L *p, double k) { *p = k * *p; }
D(RowWise)
D(ColumnWise)
D(Trapezoid)
D(LwTriangularRowWise)
D(LwTriangularColWise)
