// @props G01
// @src src/core/reference_counted.cpp src/core/lifetime.cpp
#include "g01_numerical.hpp"
