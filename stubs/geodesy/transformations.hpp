#pragma once
#include "geodesy/core/crd_transformations.hpp"
