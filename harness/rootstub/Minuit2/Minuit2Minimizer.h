#pragma once
#include "Math/Minimizer.h"
#include "Minuit2/MnTraceObject.h"
namespace ROOT { namespace Minuit2 { class Minuit2Minimizer : public Math::Minimizer { public: Minuit2Minimizer(const char*){} void SetTraceObject(MnTraceObject&){} }; } }
