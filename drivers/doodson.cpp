#include "doodson.hpp"
using namespace dso;
#define X extern "C"
typedef DoodsonConstituent D;
static inline void put(const D &d, int *o) { for (int i = 0; i < 6; i++) o[i] = d(i); }
X void drv_vars(const double *f, double g, double *o) { double *r = delaunay2doodson(f, g, o); o[6] = r[0]; }
X double drv_arg(const int *n, double p, const double *f) { return D(n[0], n[1], n[2], n[3], n[4], n[5], p).argument(f); }
X double drv_argl(const int *n, const double *f) { D d{n[0], n[1], n[2], n[3], n[4], n[5]}; return d.argument(f); }
X double drv_arga(const int *n, const double *f) { return D(n).argument(f); }
X void drv_get(const int *n, double p, int *o, int *q, double *r, int *z) {
  const D d(n[0], n[1], n[2], n[3], n[4], n[5], p);
  put(d, o); for (int i = 0; i < 6; i++) q[i] = d.int_array()[i];
  r[0] = d.pifactor(); r[1] = D(n).pifactor(); put(D(), z); r[2] = D().pifactor(); }
X bool drv_eq(const int *a, double p, const int *b, double q) { return D(a[0], a[1], a[2], a[3], a[4], a[5], p) == D(b[0], b[1], b[2], b[3], b[4], b[5], q); }
X bool drv_ne(const int *a, double p, const int *b, double q) { return D(a[0], a[1], a[2], a[3], a[4], a[5], p) != D(b[0], b[1], b[2], b[3], b[4], b[5], q); }
X bool drv_species(const int *a, const int *b) { return D(a).same_species(D(b)); }
X bool drv_group(const int *a, const int *b) { return D(a).same_group(D(b)); }
X bool drv_const(const int *a, const int *b) { return D(a).same_constituent(D(b)); }
X void drv_str5(const int *n, char *s) { D(n).str(s); }
X void drv_str0(const int *n, char *s) { D(n).str(s, false); }
X void drv_parse(const char *s, int *o) { put(D::from_chars(s), o); }
X void drv_resolve(const char *s, int *o) { put(resolve_iers10_doodson_string(s), o); }
X void drv_wave(const char *s, int *o, double *p, char *nm) {
  TidalWave w = get_wave(s);
  put(w.doodson(), o); p[0] = w.doodson().pifactor(); p[1] = w.period(); p[2] = w.height();
  for (int i = 0; i < detail::MAX_CHARS_TIDAL_WAVE; i++) nm[i] = w.name()[i]; }
X bool drv_entry(const char *s) { return find_wave_entry(s) != nullptr; }
X bool drv_ocean(const char *s, int *o, double *p, char *nm) {
  auto w = detail::match_ocean_tide_wave(s);
  if (!w) return false;
  put(w->doodson(), o); p[0] = w->doodson().pifactor(); p[1] = w->period(); p[2] = w->height();
  for (int i = 0; i < detail::MAX_CHARS_TIDAL_WAVE; i++) nm[i] = w->name()[i];
  return true; }
X bool drv_oceann(const int *n, double q, int *o, double *p, char *nm) {
  auto w = detail::match_ocean_tide_wave(D(n[0], n[1], n[2], n[3], n[4], n[5], q));
  if (!w) return false;
  put(w->doodson(), o); p[0] = w->doodson().pifactor(); p[1] = w->period(); p[2] = w->height();
  for (int i = 0; i < detail::MAX_CHARS_TIDAL_WAVE; i++) nm[i] = w->name()[i];
  return true; }
X void drv_tw(const int *n, double p, double h, const char *s, int *o, double *q, char *nm) {
  TidalWave w(D(n), p, h, s);
  put(w.doodson(), o); q[0] = w.period(); q[1] = w.height();
  for (int i = 0; i < detail::MAX_CHARS_TIDAL_WAVE; i++) nm[i] = w.name()[i]; }
