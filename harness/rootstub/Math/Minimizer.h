#pragma once
#include "Math/IFunction.h"
#include <functional>
#include <string>
#include <vector>
// A minimiser that follows a script: verif_minimise is called with the variables it was given.
namespace ROOT { namespace Math { class Minimizer { public:
  struct Var { std::string name; double v=0, step=0, lo=0, hi=0; bool limited=false; };
  std::vector<Var> vars; std::vector<double> x, err, cov; int status=-1, ncalls=0; double edm=-1; const IBaseFunctionMultiDimTempl<double>* f=nullptr;
  static Minimizer*& last(){ static Minimizer* m=nullptr; return m; } Minimizer(){ last()=this; }
  virtual ~Minimizer()=default;
  double ErrorDef()const{return 1;} void SetMaxFunctionCalls(unsigned){} void SetMaxIterations(unsigned){} void SetTolerance(double){} void SetPrecision(double){} void SetStrategy(int){} void SetPrintLevel(int){}
  bool SetVariable(unsigned i,const std::string& n,double v,double s){ if(i>=vars.size()) vars.resize(i+1); vars[i]=Var{n,v,s}; return true; }
  bool SetVariableLimits(unsigned i,double a,double b){ vars[i].lo=a; vars[i].hi=b; vars[i].limited=true; return true; }
  void SetFunction(const IBaseFunctionMultiDimTempl<double>& g){ f=&g; }
  bool Minimize(); bool GetMinosError(unsigned i,double& lo,double& hi,int& st);
  const double* X()const{return x.data();} const double* Errors()const{return err.data();} double CovMatrix(unsigned i,unsigned j)const{ return cov[i*vars.size()+j]; } int Status()const{return status;} int CovMatrixStatus()const{return 3;} double Edm()const{return edm;} unsigned NCalls()const{return ncalls;} };
inline std::function<void(Minimizer&)>& verif_minimise(){ static std::function<void(Minimizer&)> h; return h; }
inline std::function<void(Minimizer&,unsigned,double&,double&)>& verif_minos(){ static std::function<void(Minimizer&,unsigned,double&,double&)> h; return h; }
inline bool Minimizer::Minimize(){ verif_minimise()(*this); return status==0; }
inline bool Minimizer::GetMinosError(unsigned i,double& lo,double& hi,int& st){ verif_minos()(*this,i,lo,hi); st=0; return true; }
} }
