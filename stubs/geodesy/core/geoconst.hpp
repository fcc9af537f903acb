#pragma once
#include "geodesy/units.hpp"
