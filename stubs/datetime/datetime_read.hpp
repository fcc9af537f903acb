#pragma once
#include "datetime/core/datetime_io_core.hpp"
extern "C" long vfn_from_char(const char *, const char **);
namespace dso {
/* throws on malformed input, as the library does */
template <YMDFormat F, HMSFormat H, typename T> datetime<T> from_char(const char *s, const char **e = nullptr) { return datetime<T>(vfn_from_char(s, e)); }
} // namespace dso
