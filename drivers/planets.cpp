#include "planets.hpp"
using namespace dso;
#define X extern "C"
X int drv_pos(int p, const MjdEpoch *t, double *o) {
  Eigen::Matrix<double, 3, 1> v;
  for (int i = 0; i < 3; i++) v(i) = 0e0;
  int s = planet_pos((Planet)p, *t, v);
  for (int i = 0; i < 3; i++) o[i] = v(i);
  return s;
}
X int drv_state(int p, const MjdEpoch *t, double *o) {
  Eigen::Matrix<double, 6, 1> v;
  for (int i = 0; i < 6; i++) v(i) = 0e0;
  int s = planet_state((Planet)p, *t, v);
  for (int i = 0; i < 6; i++) o[i] = v(i);
  return s;
}
X int drv_id(int p, int *o) { return cspice::planet_to_naif_id((Planet)p, *o); }
X int drv_idstr(int p, char *b, int n) { return cspice::planet_to_naif_idstr((Planet)p, b, n); }
X int drv_load(const char *k) { return load_spice_kernel(k); }
X int drv_gm(const char *k, int si, double *o) { return sun_moon_gm(o[0], o[1], si, k); }
X int drv_gm_null(int si, double *o) { return sun_moon_gm(o[0], o[1], si); }
X int drv_gm_default(double *o) { return sun_moon_gm(o[0], o[1]); }
X int drv_enum(int *o) {
  Planet p[] = {Planet::EARTH, Planet::MOON, Planet::SUN, Planet::MERCURY, Planet::VENUS, Planet::MARS, Planet::JUPITER, Planet::SATURN};
  for (int i = 0; i < 8; i++) o[i] = (int)p[i];
  return 8;
}
