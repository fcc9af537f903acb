/* Stand-in for the (absent) geodesy library: angle units.  Conversions are the
 * real linear maps; the reduction to one turn is left uninterpreted. */
#pragma once
#include <cmath>
#include <type_traits>
extern "C" double vfn_anp(double) noexcept;
namespace dso {
constexpr const double DPI = 3.141592653589793238462643;
constexpr const double D2PI = 6.283185307179586476925287;
constexpr const double TURNAS = 1296000.0;
inline constexpr double sec2rad(double s) noexcept { return s * 4.848136811095359935899141e-6; }
inline constexpr double rad2sec(double s) noexcept { return s * 206264.8062470963551564734; }
inline constexpr double hsec2rad(double s) noexcept { return s * 7.272205216643039903848712e-5; }
inline constexpr double deg2rad(double s) noexcept { return s * 0.01745329251994329576923691; }
inline constexpr double rad2deg(double s) noexcept { return s * 57.29577951308232087679815; }
namespace detail {
enum class AngleUnit : char { Radians, Degrees };
template <AngleUnit U> struct AngleUnitTraits;
template <> struct AngleUnitTraits<AngleUnit::Radians> { static constexpr double full_circle() noexcept { return D2PI; } };
template <> struct AngleUnitTraits<AngleUnit::Degrees> { static constexpr double full_circle() noexcept { return 360e0; } };
} // namespace detail
template <detail::AngleUnit U = detail::AngleUnit::Radians> inline double anp(double a) noexcept { return vfn_anp(a); }
} // namespace dso
