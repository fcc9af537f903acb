#include <cassert>
#include "aod1b_data_stream.hpp"
#include <new>
#include <utility>
using namespace dso;
#define X extern "C"
extern "C" void vfn_mark(int) noexcept;
/* n questions; how: 0 asked, 1 moved before initialisation, 2 moved after the
 * first question, 3 assigned to a stream of another file after the first */
template <AOD1BCoefficientType T, bool DIR> static void run(const char *fn, const char *dir, const char *other, int how, const long *t, int n, int deg, int ord, int *st, double *o) {
  typedef Aod1bDataStream<T> S;
  alignas(S) unsigned char a[sizeof(S)], b[sizeof(S)];
  S *s, *q = nullptr;
  if constexpr (DIR)
    s = new (a) S(fn, dir);
  else
    s = new (a) S(fn);
  S *p = s;
  for (int i = -1; i < n; i++) {
    if (how == i + 2 && (how == 1 || how == 2)) {
      q = new (b) S(std::move(*s));
      p = q;
    }
    if (i == 1 && how == 3) {
      q = new (b) S(other);
      *q = std::move(*s);
      p = q;
    }
    if (i < 0) {
      st[0] = p->initialize();
      vfn_mark(1);
      if (st[0])
        break;
      continue;
    }
    StokesCoeffs cs(deg, ord, 1e0, 1e0);
    for (int l = 0; l <= deg; l++)
      for (int m = 0; m <= l && m <= ord; m++)
        cs.C(l, m) = cs.S(l, m) = 77e0;
    st[i + 1] = p->coefficients_at(Datetime<nanoseconds>(t[i]), cs);
    int k = 0;
    for (int l = 0; l <= deg; l++)
      for (int m = 0; m <= l && m <= ord; m++) {
        o[32 * i + k++] = cs.C(l, m);
        o[32 * i + k++] = cs.S(l, m);
      }
  }
  if (q)
    q->~S();
  s->~S();
  vfn_mark(2);
}
#define ARGS const char *fn, const char *dir, const char *other, int how, const long *t, int n, int deg, int ord, int *st, double *o
#define PASS fn, dir, other, how, t, n, deg, ord, st, o
X void drv_atm(ARGS) { run<AOD1BCoefficientType::ATM, false>(PASS); }
X void drv_ocn(ARGS) { run<AOD1BCoefficientType::OCN, false>(PASS); }
X void drv_glo(ARGS) { run<AOD1BCoefficientType::GLO, false>(PASS); }
X void drv_oba(ARGS) { run<AOD1BCoefficientType::OBA, false>(PASS); }
X void drv_days(ARGS) { run<AOD1BCoefficientType::GLO, true>(PASS); }
