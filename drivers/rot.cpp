#include "earth_rotation.hpp"
#include "iau.hpp"
using namespace dso;
#define X extern "C"
static inline void put(const Eigen::Quaterniond &q, double *o) { o[0] = q.w(); o[1] = q.x(); o[2] = q.y(); o[3] = q.z(); }
static inline void putm(const Eigen::Matrix3d &m, double *o) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o[3 * i + j] = m(i, j); }
#define G(n) X double drv_eop_##n(const EopRecord *p) { return p->n(); }
G(xp) G(yp) G(dX) G(dY) G(dut) G(lod)
X void drv_c2i(const MjdEpoch *e, const EopRecord *p, double *o) { put(c2i06a(*e, *p), o); }
X void drv_c2idm(const MjdEpoch *e, const EopRecord *p, double *o) { Eigen::Matrix3d m; put(c2i06a(*e, *p, m), o); putm(m, o + 4); }
X void drv_bz(const MjdEpoch *e, const EopRecord *p, double *o) { put(c2i06a_bz(*e, *p), o); }
X void drv_pq(const MjdEpoch *e, const EopRecord *p, double *o) { Eigen::Quaterniond a, b; Eigen::Vector3d v = c2i06a(*e, *p, a, b); put(a, o); put(b, o + 4); o[8] = v(0); o[9] = v(1); o[10] = v(2); }
X void drv_sph(double x, double y, double *o) { detail::xycip2spherical(x, y, o[0], o[1]); }
X void drv_C(double x, double y, double s, double *o) { putm(Eigen::Matrix3d(detail::C(x, y, s).toRotationMatrix()), o); }
X void drv_Cq(double x, double y, double s, double *o) { put(detail::C_qimpl(x, y, s), o); }
X void drv_Crxy(double x, double y, double s, double *o) { Eigen::Matrix3d m = detail::C_rxyimpl(x, y, s); putm(m, o); }
X void drv_dR(double era, double w, double *o) { putm(detail::dRdt(era, w), o); }
X void drv_q7(double era, double s, double sp, double x, double y, double xp, double yp, double *o) { put(detail::gcrs2itrs_quaternion(era, s, sp, x, y, xp, yp), o); }
X void drv_c2i7(double era, double s, double sp, double d, double e, double xp, double yp, double *o) { put(detail::c2i(era, s, sp, d, e, xp, yp), o); }
X void drv_c2t(double era, double s, double d, double e, double *o) { put(detail::c2tirs(era, s, d, e), o); }
X void drv_t2i(double xp, double yp, double sp, double *o) { put(detail::tirs2i(xp, yp, sp), o); }
