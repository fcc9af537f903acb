#include "clock.hpp"
#include <new>
#include <utility>
#define X extern "C"
extern "C" void vfn_mark(int) noexcept;
using us = std::chrono::microseconds;
using ms = std::chrono::milliseconds;
static long ns(Clock::duration_t d) { return std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); }
static void put(const Clock &c, long *o, double *a, int k) {
  o[0] = ns(c.get_total_duration<std::chrono::nanoseconds>());
  o[1] = c.msamples;
  o[2] = c.get_total_duration<us>().count();
  o[3] = c.get_total_duration<ms>().count();
  if (k) {
    a[0] = c.average_running_time();
    a[1] = c.average_running_time<ms>();
    a[2] = c.average_running_time<std::chrono::nanoseconds>();
  }
}
/* n timed intervals */
X void drv_clock(int n, long *o, double *a) {
  Clock c("c");
  for (int i = 0; i < n; i++) {
    c.start();
    c.stop();
  }
  put(c, o, a, n > 0);
  vfn_mark(1);
}
/* interval still running: elapsed since its start, not in the total */
X void drv_running(long *o) {
  Clock c("c");
  c.start();
  c.stop();
  c.start();
  o[0] = ns(c.get_elapsed_time());
  o[1] = ns(c.get_total_duration<std::chrono::nanoseconds>());
  o[2] = c.msamples;
  o[3] = ns(c.get_elapsed_time());
  vfn_mark(1);
}
/* two stops after one start */
X void drv_laps(long *o) {
  Clock c("c");
  c.start();
  c.stop();
  c.stop();
  o[0] = ns(c.get_total_duration<std::chrono::nanoseconds>());
  o[1] = c.msamples;
  vfn_mark(1);
}
X void drv_name(const char *s, char *o) {
  Clock c(s);
  for (int i = 0; i < 32; i++) {
    o[i] = c.name()[i];
    if (!o[i])
      break;
  }
  vfn_mark(1);
}
/* how: 0 copy, 1 move, 2 assignment, 3 self assignment; then the copy goes on */
X void drv_copy(int how, long *o, double *a, char *s) {
  Clock c("original");
  c.start();
  c.stop();
  c.start();
  Clock e("e");
  e.start();
  e.stop();
  e.start();
  e.stop();
  if (how == 2)
    e = c;
  if (how == 3)
    c = *&c;
  Clock d(how == 0 ? Clock(c) : how == 1 ? Clock(std::move(c)) : how == 2 ? e : c);
  d.stop();
  put(d, o, a, 1);
  if (how != 1)
    put(c, o + 4, a + 3, 1);
  for (int i = 0; i < 24; i++) {
    s[i] = d.name()[i];
    if (!s[i])
      break;
  }
  vfn_mark(1);
}
X bool drv_faster(int n, int m) {
  Clock c("c"), d("d");
  for (int i = 0; i < n; i++) {
    c.start();
    c.stop();
  }
  for (int i = 0; i < m; i++) {
    d.start();
    d.stop();
  }
  vfn_mark(1);
  return c.is_faster(d);
}
X void drv_compare(void) {
  Clock c("one"), d("two");
  c.start();
  c.stop();
  d.start();
  d.stop();
  d.start();
  d.stop();
  c.compare(d);
  vfn_mark(1);
}
