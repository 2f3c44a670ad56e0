#include "AmpGen/simd/avx2d_types.h"
using namespace AmpGen; using namespace AmpGen::AVX2d;
