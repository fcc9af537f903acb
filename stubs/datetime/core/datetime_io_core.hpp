#pragma once
#include "datetime/calendar.hpp"
namespace dso {
enum class YMDFormat : char { YYYYMMDD, YYYYDDD };
enum class HMSFormat : char { HHMMSS, HHMMSSF };
} // namespace dso
