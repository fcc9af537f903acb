#pragma once
#include "geodesy/core/crdtype_warppers.hpp"
#include "geodesy/units.hpp"
extern "C" double vfn_sph_r(double, double, double) noexcept;
extern "C" double vfn_sph_lat(double, double, double) noexcept;
extern "C" double vfn_sph_lon(double, double, double) noexcept;
extern "C" {
double vfn_lvlh00(double, double) noexcept;
double vfn_lvlh01(double, double) noexcept;
double vfn_lvlh02(double, double) noexcept;
double vfn_lvlh10(double, double) noexcept;
double vfn_lvlh11(double, double) noexcept;
double vfn_lvlh12(double, double) noexcept;
double vfn_lvlh20(double, double) noexcept;
double vfn_lvlh21(double, double) noexcept;
double vfn_lvlh22(double, double) noexcept;
}
namespace dso {
template <typename T> inline SphericalCrd cartesian2spherical(const T &c) noexcept {
  return SphericalCrd{vfn_sph_r(c.x(), c.y(), c.z()), vfn_sph_lat(c.x(), c.y(), c.z()), vfn_sph_lon(c.x(), c.y(), c.z())};
}
/* rotation from the local frame at (lat, lon); its elements are left uninterpreted */
inline Eigen::Matrix<double, 3, 3> geodetic2lvlh(double lat, double lon) noexcept {
  Eigen::Matrix<double, 3, 3> R;
  R << vfn_lvlh00(lat, lon), vfn_lvlh01(lat, lon), vfn_lvlh02(lat, lon), vfn_lvlh10(lat, lon), vfn_lvlh11(lat, lon), vfn_lvlh12(lat, lon),
      vfn_lvlh20(lat, lon), vfn_lvlh21(lat, lon), vfn_lvlh22(lat, lon);
  return R;
}
} // namespace dso
