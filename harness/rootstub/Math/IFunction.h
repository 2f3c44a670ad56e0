#pragma once
namespace ROOT { namespace Math {
template<class T> class IBaseFunctionMultiDimTempl { public: virtual ~IBaseFunctionMultiDimTempl()=default; virtual T operator()(const T* x) const =0; };
template<class T> class IGradientFunctionMultiDimTempl : public IBaseFunctionMultiDimTempl<T> {};
} }
