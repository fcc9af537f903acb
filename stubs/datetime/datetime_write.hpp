#pragma once
#include "datetime/core/datetime_io_core.hpp"
extern "C" void vfn_ymd(int, int, int, char *, char);
namespace dso {
template <YMDFormat F> const char *to_char(const ymd_date &d, char *b, char c = '-') { vfn_ymd(d.y, d.m, d.d, b, c); return b; }
template <YMDFormat F, HMSFormat H, typename T> const char *to_char(const datetime<T> &, char *b, char = '-', char = ':') { *b = 0; return b; }
template <YMDFormat F, HMSFormat H> const char *to_char(const TwoPartDate &, char *, char = '-', char = ':');
} // namespace dso
