// A double as the exact number it stands for: p/q with |p|,q <= 20000, a rational multiple of pi, or digits.
#ifndef VERIF_RAT_H
#define VERIF_RAT_H
#include "vjson.h"
inline bool asFrac(double x, long long& p, long long& q){
  double y=x; long long p0=0,q0=1,p1=1,q1=0; double tol=1e-10*std::max(1.0,std::fabs(x));
  for(int k=0;k<40;++k){ double f=std::floor(y); if(std::fabs(f)>1e9) return false; long long a=(long long)f, p2=a*p1+p0, q2=a*q1+q0; if(std::llabs(p2)>20000||q2>20000) return false;
    p0=p1;q0=q1;p1=p2;q1=q2; if(std::fabs(x-double(p1)/double(q1))<=tol){ p=p1;q=q1; return true; } if(y-f<1e-12) return false; y=1/(y-f); }
  return false; }
inline std::string showReal(double x){
  if(std::isnan(x)) return "nan"; if(std::isinf(x)) return x>0?"inf":"-inf";
  long long p,q; if(asFrac(x,p,q)) return q==1?std::to_string(p):std::to_string(p)+"/"+std::to_string(q);
  if(asFrac(x/M_PI,p,q) && q<=720) return (q==1?std::to_string(p):std::to_string(p)+"/"+std::to_string(q))+"pi";
  char b[40]; snprintf(b,40,"%.9g",x); return b; }
inline J showC(const std::complex<double>& z){ return J::list({J(showReal(z.real())),J(showReal(z.imag()))}); }
#endif
