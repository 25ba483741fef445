// @props G01
// @src src/core/reference_counted.cpp src/core/lifetime.cpp
// @flags -DUSE_AVX -DUSE_EMM -mavx
#include "g01_numerical.hpp"
