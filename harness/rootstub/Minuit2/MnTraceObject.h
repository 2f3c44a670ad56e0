#pragma once
#include "Minuit2/MinimumState.h"
namespace ROOT { namespace Minuit2 { class MnTraceObject { public: virtual ~MnTraceObject()=default; virtual void operator()(int,const MinimumState&){} }; } }
