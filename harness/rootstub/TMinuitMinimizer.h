#pragma once
#include "Math/Minimizer.h"
namespace ROOT { namespace Minuit { enum EMinimizerType { kMigrad }; } }
class TMinuitMinimizer : public ROOT::Math::Minimizer { public: TMinuitMinimizer(ROOT::Minuit::EMinimizerType){} };
