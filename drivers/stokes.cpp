#include <algorithm>
#include <new>
#include <utility>
#include "stokes_coefficients.hpp"
#include "lib/stokes_coefficients.cpp"
using namespace dso;
using T = StokesCoeffs;
using M = CoeffMatrix2D<MatrixStorageType::LwTriangularColWise>;
#define X extern "C"
X void drv_dflt(T *p) { new (p) T(); }
X void drv_ctor(T *p, int n, int m, double GM, double Re) { new (p) T(n, m, GM, Re); }
X void drv_ctor1(T *p, int n) { new (p) T(n); }
X void drv_cctor(T *p, const T *o) { new (p) T(*o); }
X void drv_mctor(T *p, T *o) { new (p) T(std::move(*o)); }
X void drv_cassign(T *p, const T *o) { *p = *o; }
X void drv_cassignself(T *p) { *p = *p; }
X void drv_massign(T *p, T *o) { *p = std::move(*o); }
X void drv_massignself(T *p) { *p = std::move(*p); }
X void drv_swap(T *p, T *o) { p->swap(*o); }
X void drv_swapf(T *p, T *o) { dso::swap(*p, *o); }
X void drv_swapself(T *p) { p->swap(*p); }
X void drv_dtor(T *p) { p->~T(); }
X void drv_resize(T *p, int n, int m) { p->resize(n, m); }
X void drv_cresize(T *p, int n, int m) { p->cresize(n, m); }
X int drv_shrink(T *p, int n, int m) { return p->shrink_dimensions(n, m); }
X void drv_clear(T *p) { p->clear(); }
X void drv_scale(T *p, double v) { p->scale(v); }
X T *drv_add(T *p, const T *o) { return &(*p += *o); }
X T *drv_addself(T *p) { return &(*p += *p); }
X int drv_maxdeg(const T *p) { return p->max_degree(); }
X int drv_maxord(const T *p) { return p->max_order(); }
X double drv_GM(const T *p) { return p->GM(); }
X double drv_Re(const T *p) { return p->Re(); }
X bool drv_norm(const T *p) { return p->normalized(); }
X double *drv_GMr(T *p) { return &p->GM(); }
X double *drv_Rer(T *p) { return &p->Re(); }
X bool *drv_normr(T *p) { return &p->normalized(); }
X double drv_J2(const T *p) { return p->J2(); }
X double drv_C(const T *p, int i, int j) { return p->C(i, j); }
X double drv_S(const T *p, int i, int j) { return p->S(i, j); }
X double *drv_Cr(T *p, int i, int j) { return &p->C(i, j); }
X double *drv_Sr(T *p, int i, int j) { return &p->S(i, j); }
X const M *drv_Cnm(const T *p) { return &p->Cnm(); }
X const M *drv_Snm(const T *p) { return &p->Snm(); }
X M *drv_Cnmr(T *p) { return &p->Cnm(); }
X M *drv_Snmr(T *p) { return &p->Snm(); }
X void drv_toanm(const T *p, Eigen::MatrixXd *r) { new (r) Eigen::MatrixXd(p->to_anm()); }
X void drv_fromanm(T *p, const Eigen::MatrixXd *a, int m) { new (p) T(T::from_anm(*a, m)); }
X void drv_fromanm1(T *p, const Eigen::MatrixXd *a) { new (p) T(T::from_anm(*a)); }
