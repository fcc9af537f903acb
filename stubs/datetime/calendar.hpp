/* Stand-in for the (absent) datetime library.  An epoch is a day number plus
 * seconds of day; differences are exact real arithmetic; leap seconds, time
 * scale changes and calendar conversions are uninterpreted. */
#pragma once
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <limits>
#include <string>
extern "C" {
int vfn_dat(int) noexcept;
int vfn_utc_day(int, double) noexcept;
double vfn_utc_sec(int, double) noexcept;
int vfn_tt_day(int, double) noexcept;
double vfn_tt_sec(int, double) noexcept;
int vfn_ut1_day(int, double, double) noexcept;
double vfn_ut1_sec(int, double, double) noexcept;
double vfn_span(long, long, int) noexcept;
long vfn_civil(int, int, int, int, int, int, long) noexcept;
long vfn_gps2tt(long) noexcept;
long vfn_doy(int, int) noexcept;
int vfn_ymd_of(int, int) noexcept;
double vfn_days(int, double, int, double) noexcept;
}
namespace dso {
constexpr const double SEC_PER_DAY = 86400e0;
enum class DateTimeDifferenceType { FractionalDays, FractionalSeconds, FractionalYears };
struct FractionalDays { double v; double days() const noexcept { return v; } explicit constexpr FractionalDays(double d) : v(d) {} };
struct FractionalSeconds { double v; double seconds() const noexcept { return v; } explicit constexpr FractionalSeconds(double d) : v(d) {} };
struct FractionalYears { double v; double years() const noexcept { return v; } explicit constexpr FractionalYears(double d) : v(d) {} };
template <DateTimeDifferenceType D> struct DiffT;
template <> struct DiffT<DateTimeDifferenceType::FractionalDays> { typedef FractionalDays type; static constexpr double scale = 1e0; };
template <> struct DiffT<DateTimeDifferenceType::FractionalSeconds> { typedef FractionalSeconds type; static constexpr double scale = 86400e0; };
template <> struct DiffT<DateTimeDifferenceType::FractionalYears> { typedef FractionalYears type; static constexpr double scale = 1e0 / 365.25e0; };
struct seconds { typedef long underlying_type; long v; explicit constexpr seconds(long x = 0) : v(x) {} };
struct nanoseconds { typedef long underlying_type; long v; explicit constexpr nanoseconds(long x = 0) : v(x) {} };
struct year { int v; explicit constexpr year(int x = 0) : v(x) {} };
struct month { int v; explicit constexpr month(int x = 0) : v(x) {} };
struct day_of_month { int v; explicit constexpr day_of_month(int x = 0) : v(x) {} };
struct day_of_year { int v; explicit constexpr day_of_year(int x = 0) : v(x) {} };
struct hours { int v; explicit constexpr hours(int x = 0) : v(x) {} };
struct minutes { int v; explicit constexpr minutes(int x = 0) : v(x) {} };
struct ymd_date { int y, m, d; };
struct modified_julian_day {
  int v;
  explicit constexpr modified_julian_day(int x = 0) : v(x) {}
  modified_julian_day operator+(modified_julian_day o) const noexcept { return modified_julian_day(v + o.v); }
  ymd_date to_ymd() const noexcept { return ymd_date{vfn_ymd_of(v, 0), vfn_ymd_of(v, 1), vfn_ymd_of(v, 2)}; }
};
inline int dat(modified_julian_day m) noexcept { return vfn_dat(m.v); }
class TwoPartDateUTC;
class TwoPartDate {
  int md;
  double ms;

public:
  constexpr TwoPartDate(int d = 0, FractionalSeconds s = FractionalSeconds{0e0}) noexcept : md(d), ms(s.v) {}
  static constexpr TwoPartDate j2000_mjd() noexcept { return TwoPartDate(51544, FractionalSeconds{43200e0}); }
  static constexpr TwoPartDate min() noexcept { return TwoPartDate(-1000000, FractionalSeconds{0e0}); }
  static constexpr TwoPartDate max() noexcept { return TwoPartDate(10000000, FractionalSeconds{0e0}); }
  constexpr int imjd() const noexcept { return md; }
  template <typename T> double sec_of_day() const noexcept { return ms; }
  double seconds() const noexcept { return ms; }
  FractionalDays fractional_days() const noexcept { return FractionalDays{ms / 86400e0}; }
  double as_mjd() const noexcept { return md + ms / 86400e0; }
  double julian_date() const noexcept { return md + ms / 86400e0 + 2400000.5e0; }
  double jcenturies_sinceJ2000() const noexcept { return ((md - 51544) + (ms - 43200e0) / 86400e0) / 36525e0; }
  template <DateTimeDifferenceType D> typename DiffT<D>::type diff(const TwoPartDate &o) const noexcept {
#ifdef VFN_DAYS
    return typename DiffT<D>::type(vfn_days(md, ms, o.md, o.ms) * DiffT<D>::scale);
#else
    return typename DiffT<D>::type(((md - o.md) + (ms - o.ms) / 86400e0) * DiffT<D>::scale);
#endif
  }
  TwoPartDateUTC tt2utc() const noexcept;
  TwoPartDate tt2ut1(double dut) const noexcept { return TwoPartDate(vfn_ut1_day(md, ms, dut), FractionalSeconds{vfn_ut1_sec(md, ms, dut)}); }
  TwoPartDate gps2tt() const noexcept;
  double key() const noexcept { return md + ms / 86400e0; }
  bool operator<(const TwoPartDate &o) const noexcept { return key() < o.key(); }
  bool operator>(const TwoPartDate &o) const noexcept { return key() > o.key(); }
  bool operator<=(const TwoPartDate &o) const noexcept { return key() <= o.key(); }
  bool operator>=(const TwoPartDate &o) const noexcept { return key() >= o.key(); }
  bool operator==(const TwoPartDate &o) const noexcept { return key() == o.key(); }
  bool operator!=(const TwoPartDate &o) const noexcept { return key() != o.key(); }
};
typedef TwoPartDate MjdEpoch;
class TwoPartDateUTC {
  int md;
  double ms;

public:
  constexpr TwoPartDateUTC(int d = 0, FractionalSeconds s = FractionalSeconds{0e0}) noexcept : md(d), ms(s.v) {}
  constexpr int imjd() const noexcept { return md; }
  TwoPartDate utc2tt() const noexcept { return TwoPartDate(vfn_tt_day(md, ms), FractionalSeconds{vfn_tt_sec(md, ms)}); }
};
inline TwoPartDateUTC TwoPartDate::tt2utc() const noexcept { return TwoPartDateUTC(vfn_utc_day(md, ms), FractionalSeconds{vfn_utc_sec(md, ms)}); }
/* integral time stamp */
template <typename T> class datetime {
  long mt;

public:
  constexpr datetime(long t = 0) noexcept : mt(t) {}
  datetime(year y, month m, day_of_month d) noexcept : mt(vfn_civil(y.v, m.v, d.v, 0, 0, 0, 0)) {}
  datetime(year y, month m, day_of_month d, T s) noexcept : mt(vfn_civil(y.v, m.v, d.v, 0, 0, 0, s.v)) {}
  datetime(year y, month m, day_of_month d, hours h, minutes mi, T s) noexcept : mt(vfn_civil(y.v, m.v, d.v, h.v, mi.v, 0, s.v)) {}
  datetime(year y, day_of_year d) noexcept : mt(vfn_doy(y.v, d.v)) {}
  static constexpr datetime min() noexcept { return datetime(-9000000000000000000L); }
  static constexpr datetime max() noexcept { return datetime(9000000000000000000L); }
  datetime add_seconds(T s) const noexcept { return datetime(mt + s.v); }
  datetime gps2tt() const noexcept { return datetime(vfn_gps2tt(mt)); }
  double fmjd() const noexcept { return (double)mt / 86400e9; }
  modified_julian_day imjd() const noexcept { return modified_julian_day((int)(mt / 86400000000000L)); }
  template <DateTimeDifferenceType D> typename DiffT<D>::type diff(const datetime &o) const noexcept {
#ifdef VFN_SPAN
    return typename DiffT<D>::type(vfn_span(mt, o.mt, (int)D));
#else
    return typename DiffT<D>::type((double)(mt - o.mt) / 86400e9 * DiffT<D>::scale);
#endif
  }
  bool operator<(const datetime &o) const noexcept { return mt < o.mt; }
  bool operator>(const datetime &o) const noexcept { return mt > o.mt; }
  bool operator<=(const datetime &o) const noexcept { return mt <= o.mt; }
  bool operator>=(const datetime &o) const noexcept { return mt >= o.mt; }
  bool operator==(const datetime &o) const noexcept { return mt == o.mt; }
  bool operator!=(const datetime &o) const noexcept { return mt != o.mt; }
};
template <typename T> using Datetime = datetime<T>;
} // namespace dso
