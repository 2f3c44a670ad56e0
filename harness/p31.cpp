// Numerical integration and the plane of three-body decays (P31).
#include "driver.h"
#include "AmpGen/NumericalIntegration.h"
#include "AmpGen/DalitzIntegrator.h"
#include "AmpGen/Event.h"
#include <cmath>
using namespace AmpGen;
int verif_chunk=50;
// the simplest fraction within a relative 1e-9
static std::string show(double x){ if(!std::isfinite(x)) return "not finite"; double tol=1e-9*std::max(1.,std::fabs(x)); double y=x; long long p0=0,q0=1,p1=1,q1=0;
  for(int k=0;k<40;++k){ double f=std::floor(y); if(std::fabs(f)>1e9) break; long long a=(long long)f,p2=a*p1+p0,q2=a*q1+q0; if(q2>100000) break; p0=p1;q0=q1;p1=p2;q1=q2; if(std::fabs(x-double(p1)/double(q1))<=tol) return q1==1?std::to_string(p1):std::to_string(p1)+"/"+std::to_string(q1); if(y-f<1e-14) break; y=1/(y-f); }
  char b[40]; snprintf(b,40,"%.10g",x); return b; }
struct Poly { std::vector<std::pair<double,std::vector<int>>> t; Poly(const J& p){ for(auto& x: p.a){ std::vector<int> e; if(x["e"].a.empty()) e.push_back((int)x["e"].num()); else for(auto& y: x["e"].a) e.push_back((int)y.num()); t.emplace_back(x["c"].num(),e); } }
  template<class T,class A> T at(const A& x) const { T s=0.; for(auto& m: t){ T v=m.first; for(size_t k=0;k<m.second.size();++k) for(int j=0;j<m.second[k];++j) v=v*x[k]; s=s+v; } return s; } };
template<unsigned d> static J box(const J& o){ Poly p(o["p"]); std::array<double,d> lo,hi,c,w; for(unsigned k=0;k<d;++k){ lo[k]=o["lo"].a[k].num(); hi[k]=o["hi"].a[k].num(); c[k]=(lo[k]+hi[k])/2; w[k]=(hi[k]-lo[k])/2; }
  bool out=false; const std::string r=o["r"].str();
  auto inside=[&](double v,unsigned k){ if(!(v>=lo[k]-1e-9&&v<=hi[k]+1e-9)) out=true; };
  auto fv=[&](const std::array<real_v,d>& x){ for(unsigned k=0;k<d;++k) for(int l=0;l<4;++l) inside(x[k].at(l),k); return p.at<real_v>(x); };
  auto fs=[&](const std::array<double,d>& x){ for(unsigned k=0;k<d;++k) inside(x[k],k); return p.at<double>(x); };
  double v = r=="whole"? integrate<d>(fv,lo,hi) : r=="lanes"? std::get<0>(integrate_fp<d>(fv,c,w)) : std::get<0>(integrate_fp_scalar<d>(fs,c,w));
  if(out) return J("evaluated outside the box"); return J::list({J(show(v))}); }
struct W: World { DalitzIntegrator D{25,1,1,0}; double m0=5;
  static real_v all(double x){ return real_v(x); }
  J apply(const J& o) override { const std::string f=o["f"].str();
    if(f=="box"){ switch((int)o["d"].num()){ case 2: return box<2>(o); case 3: return box<3>(o); case 4: return box<4>(o); case 5: return box<5>(o); } }
    if(f=="line"){ Poly p(o["p"]); double a=o["lo"].num(),b=o["hi"].num(); const std::string r=o["r"].str(); auto g=[&](const double& x){ return p.at<double>(&x); }; auto ga=[&](const std::array<double,1>& x){ return p.at<double>(x); };
      if(r=="double") return J::list({J(show(integrate<1>(g,std::array<double,1>{a},std::array<double,1>{b})))}); if(r=="array") return J::list({J(show(integrate<1>(ga,std::array<double,1>{a},std::array<double,1>{b})))}); if(r=="direct") return J::list({J(show(integrate_1d(g,a,b)))});
      auto* ws=gsl_integration_workspace_alloc(1000); double x=integrate_1d(g,a,b,ws), y=integrate_1d(g,a,b,ws); gsl_integration_workspace_free(ws); if(std::fabs(x-y)>1e-12*(1+std::fabs(x))) return J("differs on repetition"); return J::list({J(show(x))}); }
    if(f=="pv"){ double x0=o["x0"].num(),a=o["a"].num(); std::vector<double> c; for(auto& x: o["c"].a) c.push_back(x.num()); auto g=[&](const double& x){ double s=0,t=1; for(double k: c){ s+=k*t; t*=x-x0; } return s; }; double v=integrate_1d_cauchy(g,x0,x0-a,x0+a); return J::list({J(show(std::round(v*1e9)/1e9==0?0:v))}); }
    if(f=="inf"){ int k=(int)o["k"].num(); double c=o["c"].num(),m=o["x"].num(); auto g=[&](const double& x){ return c/std::pow(1+(x-m)*(x-m),k); }; double v=integrate_1d_inf(g)/M_PI; double r=std::round(v*1024)/1024; return J::list({J(show(std::fabs(v-r)<1e-5?r:v))}); }
    auto S=[](const J& x){ double m=x.num(); return m*m; };
    if(f=="set"){ m0=o["q"].a[0].num(); D.set(S(o["q"].a[0]),S(o["q"].a[1]),S(o["q"].a[2]),S(o["q"].a[3])); return J::mkarr(); }
    if(f=="mother"){ m0=o["m"].num(); D.setMother(S(o["m"])); return J::mkarr(); }
    auto uv=[&](const J& o){ return DalitzIntegrator::sqCo(all(std::acos(o["u"].num()/2.)/M_PI),all(std::acos(o["v"].num()/2.)/M_PI)); };
    if(f=="point"){ auto x=uv(o); double s=S(o["m"]); bool own=s==0; real_v e[12]; for(auto& q: e) q=0.; if(own) D.setEvent(x,e); else D.setEvent(x,e,s); double E[12]; for(int k=0;k<12;++k){ E[k]=e[k].at(0); if(e[k].at(3)!=E[k]) return J("lanes differ"); }
      double m=(own?D.getMAB(x):D.getMAB(x,s)).at(0), j=(own?D.J(x):D.J(x,s)).at(0); double pa=E[0]*E[0]+E[1]*E[1]+E[2]*E[2], pb=E[4]*E[4]+E[5]*E[5]+E[6]*E[6], pc=E[8]*E[8]+E[9]*E[9]+E[10]*E[10], ac=E[0]*E[8]+E[1]*E[9]+E[2]*E[10];
      if(std::fabs(E[0]+E[4])+std::fabs(E[1]+E[5])+std::fabs(E[2]+E[6])>1e-9||std::fabs(pa-pb)>1e-9) return J("first pair not at rest"); double k=j/(M_PI*M_PI*std::sqrt(pa*pc)*m);
      return J::list({J(show(m)),J(show(pa)),J(show(pc)),J(show(E[3])),J(show(E[7])),J(show(E[11])),J(show(2*ac/std::sqrt(pa*pc))),J(show(k*k))}); }
    if(f=="back"){ auto x=uv(o); real_v e[12]; for(auto& q: e) q=0.; D.setEvent(x,e); double E[12]; for(int k=0;k<12;++k) E[k]=e[k].at(0); Event ev(E,12); return J::list({J(show(2*std::cos(M_PI*D.sqDp1(ev)))),J(show(2*std::cos(M_PI*D.sqDp2(ev))))}); }
    if(f=="plane"){ int a=(int)o["a"].num(),b=(int)o["b"].num(); auto dot=[](real_v* e,int i,int j){ return e[4*i+3]*e[4*j+3]-e[4*i]*e[4*j]-e[4*i+1]*e[4*j+1]-e[4*i+2]*e[4*j+2]; };
      auto g=[&](real_v* e){ real_v r=1.; for(int k=0;k<a;++k) r=r*2.*dot(e,0,1); for(int k=0;k<b;++k) r=r*2.*dot(e,0,2); return complex_v(r,real_v(0.)); };
      double s=S(o["m"]); double v=s==0?D.integrateDP(g):D.integrateDP(g,s); double q=std::round(v*720)/720; return J::list({J(show(std::fabs(v-q)<1e-7*std::max(1.,std::fabs(v))?q:v))}); }
    throw std::logic_error("vjson op"); } };
std::unique_ptr<World> makeWorld(){ return std::make_unique<W>(); }
