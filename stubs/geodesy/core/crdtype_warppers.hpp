/* Stand-in for the geodesy library: coordinate wrappers. */
#pragma once
#include "eigen3/Eigen/Eigen"
#include <type_traits>
namespace dso {
struct CartesianCrd {
  Eigen::Vector3d mv;
  CartesianCrd() : mv() {}
  explicit CartesianCrd(const Eigen::Vector3d &v) : mv(v) {}
  CartesianCrd(double a, double b, double c) : mv(a, b, c) {}
  double x() const noexcept { return mv(0); }
  double y() const noexcept { return mv(1); }
  double z() const noexcept { return mv(2); }
  double &x() noexcept { return mv(0); }
  double &y() noexcept { return mv(1); }
  double &z() noexcept { return mv(2); }
  operator const Eigen::Vector3d &() const noexcept { return mv; }
};
struct CartesianCrdConstView {
  const Eigen::Vector3d &mv;
  explicit CartesianCrdConstView(const Eigen::Vector3d &v) noexcept : mv(v) {}
  CartesianCrdConstView(const CartesianCrd &v) noexcept : mv(v.mv) {}
  double x() const noexcept { return mv(0); }
  double y() const noexcept { return mv(1); }
  double z() const noexcept { return mv(2); }
};
struct SphericalCrd {
  double mr, mlat, mlon;
  double r() const noexcept { return mr; }
  double lat() const noexcept { return mlat; }
  double lon() const noexcept { return mlon; }
  double &r() noexcept { return mr; }
  double &lat() noexcept { return mlat; }
  double &lon() noexcept { return mlon; }
};
struct SphericalCrdConstView {
  const SphericalCrd &s;
  SphericalCrdConstView(const SphericalCrd &c) noexcept : s(c) {}
  double r() const noexcept { return s.mr; }
  double lat() const noexcept { return s.mlat; }
  double lon() const noexcept { return s.mlon; }
};
template <typename T> struct CoordinateTypeTraits { static constexpr bool isCartesian = false; };
template <> struct CoordinateTypeTraits<CartesianCrd> { static constexpr bool isCartesian = true; };
template <> struct CoordinateTypeTraits<CartesianCrdConstView> { static constexpr bool isCartesian = true; };
} // namespace dso
