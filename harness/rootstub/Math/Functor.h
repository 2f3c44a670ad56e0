#pragma once
#include "Math/IFunction.h"
#include <functional>
namespace ROOT { namespace Math { class Functor : public IBaseFunctionMultiDimTempl<double> { std::function<double(const double*)> f; public: unsigned n; template<class F> Functor(F& g,unsigned n):f([&g](const double* x){ return g(x); }),n(n){} double operator()(const double* x) const override { return f(x); } }; } }
