#include <cassert>
#include "aod1b.hpp"
#include <utility>
using namespace dso;
#define X extern "C"
extern "C" void vfn_mark(int) noexcept;
static long at(const Datetime<nanoseconds> &t) { return *(const long *)(const void *)&t; }
static void text(const char *s, char *o) {
  for (int i = 0; i < 24; i++) {
    o[i] = s[i];
    if (!s[i])
      break;
  }
}
static void put(const Aod1bIn &a, long *k, double *o, char *s, int wave) {
  k[0] = a.file_type();
  k[1] = a.file_format();
  k[2] = a.num_header_records();
  k[3] = a.num_data_records();
  k[4] = a.max_degree();
  k[5] = a.coeff_errors();
  k[6] = a.coeff_normalized();
  k[7] = wave ? 0 : a.num_data_sets();
  k[8] = wave ? 0 : at(a.time_epoch());
  k[9] = at(a.first_epoch());
  k[10] = at(a.last_epoch());
  o[0] = a.GM();
  o[1] = a.Re();
  o[2] = a.flat();
  o[3] = a.omega();
  text(a.agency(), s);
  text(a.satellite(), s + 24);
  text(a.sensor(), s + 48);
  text(a.process_level(), s + 72);
  text(a.pressure_type(), s + 96);
  if (wave)
    text(a.tidal_wave().name(), s + 120);
}
/* how: 0 read, 1 copied, 2 moved, 3 assigned, 4 move-assigned, 5 read again */
X int drv_header(const char *fn, const char *other, int how, int wave, long *k, double *o, char *s) {
  Aod1bIn a(fn);
  vfn_mark(1);
  int rc = 0;
  if (how == 0)
    put(a, k, o, s, wave);
  if (how == 1)
    put(Aod1bIn(a), k, o, s, wave);
  if (how == 2)
    put(Aod1bIn(std::move(a)), k, o, s, wave);
  if (how == 3 || how == 4) {
    Aod1bIn b(other);
    if (how == 3)
      b = a;
    else
      b = std::move(a);
    put(b, k, o, s, wave);
  }
  if (how == 5) {
    rc = a.read_header();
    put(a, k, o, s, wave);
  }
  vfn_mark(2);
  return rc;
}
template <AOD1BCoefficientType T> static void iter(const char *fn, const int *ops, int n, int cd, int co, long *k, double *o) {
  Aod1bIn a(fn);
  Aod1bDataBlockIterator<T> it(a);
  StokesCoeffs cs(cd, co, 1e0, 1e0);
  for (int i = 0; i <= cd; i++)
    for (int j = 0; j <= i && j <= co; j++)
      cs.C(i, j) = cs.S(i, j) = 77e0;
  vfn_mark(1);
  for (int i = 0; i < n; i++, ops += 4, k += 8, o += 64) {
    k[0] = 0;
    if (ops[0] == 0)
      it.set_begin();
    if (ops[0] == 1)
      k[0] = it.collect(cs, ops[1], ops[2], ops[3]);
    if (ops[0] == 2)
      it.skip();
    if (ops[0] == 3)
      k[0] = it.advance();
    k[1] = it.is_eof();
    if ((ops[0] == 0 || ops[0] == 3) && !k[0]) {
      k[2] = it.header().mset_nr;
      k[3] = it.header().mnum_lines;
      k[4] = at(it.header().mepoch);
      k[5] = (int)it.header().mtype;
    }
    if (ops[0] == 1 && !k[0]) {
      k[2] = cs.max_degree();
      k[3] = cs.max_order();
      int p = 0;
      for (int l = 0; l <= cs.max_degree(); l++)
        for (int m = 0; m <= l && m <= cs.max_order(); m++) {
          o[p++] = cs.C(l, m);
          o[p++] = cs.S(l, m);
        }
    }
  }
  vfn_mark(2);
}
X void drv_iter(const char *fn, int type, const int *ops, int n, int cd, int co, long *k, double *o) {
  if (type == 0)
    iter<AOD1BCoefficientType::ATM>(fn, ops, n, cd, co, k, o);
  if (type == 1)
    iter<AOD1BCoefficientType::OCN>(fn, ops, n, cd, co, k, o);
  if (type == 2)
    iter<AOD1BCoefficientType::GLO>(fn, ops, n, cd, co, k, o);
  if (type == 3)
    iter<AOD1BCoefficientType::OBA>(fn, ops, n, cd, co, k, o);
}
X void drv_wave(const char *fn, int d, int m, int cd, int co, int sd, int so, long *k, double *o) {
  Aod1bIn a(fn);
  StokesCoeffs c(cd, co, 1e0, 1e0), s(sd, so, 1e0, 1e0);
  for (int i = 0; i <= cd; i++)
    for (int j = 0; j <= i && j <= co; j++)
      c.C(i, j) = c.S(i, j) = 77e0;
  for (int i = 0; i <= sd; i++)
    for (int j = 0; j <= i && j <= so; j++)
      s.C(i, j) = s.S(i, j) = 77e0;
  vfn_mark(1);
  k[0] = a.get_tidal_wave_coeffs(c, s, d, m);
  k[1] = c.max_degree();
  k[2] = s.max_order();
  if (!k[0]) {
    int p = 0;
    for (int i = 0; i <= cd; i++)
      for (int j = 0; j <= i && j <= co; j++) {
        o[p++] = c.C(i, j);
        o[p++] = c.S(i, j);
      }
    for (int i = 0; i <= sd; i++)
      for (int j = 0; j <= i && j <= so; j++) {
        o[p++] = s.C(i, j);
        o[p++] = s.S(i, j);
      }
  }
  vfn_mark(2);
}
X int drv_rl(const char *fn) {
  int r = Aod1bNonTidalProductNaming::resolve_rl(fn);
  vfn_mark(2);
  return r;
}
X void drv_name(int y, int m, int d, int rl, char sat, bool zip, char *buf, char *o) {
  const char *p = Aod1bNonTidalProductNaming::filename(ymd_date{y, m, d}, rl, buf, sat, zip);
  for (int i = 0; i < 40; i++) {
    o[i] = p[i];
    if (!p[i])
      break;
  }
  vfn_mark(2);
}
