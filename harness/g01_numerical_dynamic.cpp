// @props G01
// @src src/core/reference_counted.cpp src/core/lifetime.cpp
// @flags -DUSE_AVX_DYNAMIC -DUSE_EMM_DYNAMIC -DDISABLE_IDENTITY_MATRIX_OPTIMISATIONS -mavx
#define G01_FORMS 2
#include "g01_numerical.hpp"
