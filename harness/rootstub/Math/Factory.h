#include "Math/Minimizer.h"
