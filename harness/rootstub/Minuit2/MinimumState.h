#pragma once
#include <vector>
namespace ROOT { namespace Minuit2 { struct VecStub { std::vector<double> v; const double* Data()const{return v.data();} double operator[](int i)const{return v[i];} }; struct ErrStub { double Dcovar()const{return 0;} }; struct GradStub { VecStub v; const VecStub& Gstep()const{return v;} const VecStub& Vec()const{return v;} };
class MinimumState { VecStub v; GradStub g; public: double Fval()const{return 0;} double Edm()const{return 0;} int NFcn()const{return 0;} bool HasCovariance()const{return false;} ErrStub Error()const{return {};} const VecStub& Vec()const{return v;} const GradStub& Gradient()const{return g;} }; } }
