#include <algorithm>
#include <new>
#include <utility>
#include "stokes_coefficients.hpp"
#include "lib/stokes_coefficients.cpp"
using namespace dso;
using T = StokesCoeffs;
#define X extern "C"
/* a history of operations g (six numbers each) on three sets; what they hold
 * afterwards goes to k and o */
static int give(const T &c, double *o, int *k) {
  k[0] = c.max_degree();
  k[1] = c.max_order();
  k[2] = c.normalized();
  o[0] = c.GM();
  o[1] = c.Re();
  int p = 2;
  for (int n = 0; n <= c.max_degree(); n++)
    for (int m = 0; m <= n; m++) {
      o[p++] = c.C(n, m);
      o[p++] = c.S(n, m);
    }
  return p;
}
static void fill(T &c, const double *v) {
  c.GM() = v[0];
  c.Re() = v[1];
  int p = 2;
  for (int n = 0; n <= c.max_degree(); n++)
    for (int m = 0; m <= n; m++) {
      c.C(n, m) = v[p++];
      c.S(n, m) = v[p++];
    }
}
X void drv_seq(const int *g, int len, int mask, const double *in, double *o, int *k) {
  T s[3];
  for (int q = 0; q < len; q++, g += 6) {
    T &a = s[g[1]];
    T &b = s[g[2]];
    const double *v = in + 64 * q;
    switch (g[0]) {
    case 0: {
      T t(g[3], g[4], v[0], v[1]);
      fill(t, v);
      t.normalized() = g[5];
      a.swap(t);
      break;
    }
    case 1: a = b; break;
    case 2: a = std::move(b); break;
    case 3: a.swap(b); break;
    case 4: {
      T t(b);
      dso::swap(a, t);
      break;
    }
    case 5: {
      T t(std::move(b));
      dso::swap(a, t);
      break;
    }
    case 6:
      a.resize(g[3], g[4]);
      fill(a, v);
      break;
    case 7: a.cresize(g[3], g[4]); break;
    case 8: k[16 + q] = a.shrink_dimensions(g[3], g[4]); break;
    case 9: a += b; break;
    case 10: a.clear(); break;
    case 11: a.scale(v[0]); break;
    case 12: {
      const Eigen::MatrixXd m = b.to_anm();
      T t(T::from_anm(m));
      fill(b, v);
      a.swap(t);
      break;
    }
    case 13: {
      const Eigen::MatrixXd m = b.to_anm();
      T t(T::from_anm(m, g[3]));
      a = t;
      break;
    }
    }
  }
  int p = 0;
  for (int i = 0; i < 3; i++) {
    if (mask & (1 << i)) p += give(s[i], o + p, k + 4 * i);
  }
}
