// Splines, compensated sums, barrier factors (P22).
#include "driver.h"
#include "AmpGen/Expression.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/CompiledExpression.h"
#include "AmpGen/CompilerWrapper.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/Spline.h"
#include "AmpGen/KahanSum.h"
#include "AmpGen/simd/utils.h"
#include <unistd.h>
#include <fstream>
using namespace AmpGen;
int verif_chunk=400;
static const std::string HARNESS=std::string(__FILE__).substr(0,std::string(__FILE__).rfind('/'));
using Fn = CompiledExpression<complex_t(const double*, const double*)>;
using Vn = CompiledExpression<complex_v(const double*, const real_v*)>;
static std::string show(double x){ if(std::isnan(x)) return "nan"; if(std::isinf(x)) return "inf"; double y=x; long long p0=0,q0=1,p1=1,q1=0; double tol=2e-13*std::max(0.05,std::fabs(x));
  for(int k=0;k<60;++k){ double f=std::floor(y); if(std::fabs(f)>3e9) break; long long a=(long long)f,p2=a*p1+p0,q2=a*q1+q0; if(q2>60000) break; p0=p1;q0=q1;p1=p2;q1=q2; if(std::fabs(x-double(p1)/double(q1))<=tol) return q1==1?std::to_string(p1):std::to_string(p1)+"/"+std::to_string(q1); if(y-f<1e-13) break; y=1/(y-f); }
  char b[40]; snprintf(b,40,"%.12g",x); return b; }
static double fr(const J& a){ return double(a[0].num())/double(a[1].num()); }
static double two(const J& v){ return std::ldexp(double(v[0].num()),60)+double(v[1].num()); }
static std::string sb(double v){ double b=std::ldexp(v,-60); if(std::fabs(v)<1e6) return v==std::floor(v)?std::to_string((long long)v):"inexact"; return b==std::floor(b)?std::to_string((long long)b)+"B":"inexact"; }
static std::string sk(double v){ if(std::fabs(v)<1e6) return v==std::floor(v)?std::to_string((long long)v):"inexact"; for(int e: {58,116}){ double b=std::ldexp(v,-e); if(b==std::floor(b)&&std::fabs(b)<1e6&&b!=0) return std::to_string((long long)b)+(e==58?"M":"B"); } return "inexact"; }
static const double cfg[7][3]={{3,0,2},{4,0,3},{6,0,0.5},{5,-1,1},{7,0.3,2.7},{4,0.5,2},{4,0.5,2}};
struct Jit {
  MinuitParameterSet mps; std::vector<std::unique_ptr<Fn>> s; std::vector<std::unique_ptr<Vn>> v; std::map<std::string,unsigned> em{{"x",0}};
  static std::string key(int k,int i){ return k<5?"S"+std::to_string(k)+"::"+std::to_string(i):std::string("MI::Spline::")+(k==5?"Re":"Im")+"::"+std::to_string(i); }
  Jit(){
    OptionsParser::setArg("MI::Spline::N 4"); OptionsParser::setArg("MI::Spline::Min 0.5"); OptionsParser::setArg("MI::Spline::Max 2");
    for(int k=0;k<7;++k) for(int i=0;i<cfg[k][0];++i) mps.add(key(k,i),Flag::Free,0,1);
    std::vector<Expression> f; Parameter x("x"); for(int k=0;k<5;++k) f.push_back(Spline("S"+std::to_string(k),size_t(cfg[k][0]),cfg[k][1],cfg[k][2])(x,nullptr));
    f.push_back(getSpline("MI",x,"Re")); f.push_back(getSpline("MI",x,"Im")); f.push_back(Lineshape::Factory::get("MIPWA",x,0,0,"MI",0));
    std::vector<CompiledExpressionBase*> q,w;
    for(size_t i=0;i<f.size();++i){ s.emplace_back(new Fn(f[i],"s"+std::to_string(i),&mps,em)); q.push_back(s.back().get()); v.emplace_back(new Vn(f[i],"v"+std::to_string(i),&mps,em)); w.push_back(v.back().get()); }
    std::string base="./p22_"+std::to_string(::getppid()); compile(q,base+"s",false); compile(w,base+"v",true);
    for(auto& e: s) e->prepare(); for(auto& e: v) e->prepare();
  }
  static void compile(std::vector<CompiledExpressionBase*>& q,const std::string& b,bool simd){
    std::string so=b+".so",mark=b+".try"; 
    if(::access(so.c_str(),R_OK)==0){ for(auto* e: q) e->link(so); return; }
    if(::access(mark.c_str(),R_OK)==0) throw std::runtime_error("the generated code does not compile");
    std::ofstream(mark)<<1; CompilerWrapper cw; if(simd) cw.addHeader(HARNESS+"/p07_simd.h"); cw.compile(q,b+".cpp"); ::unlink(mark.c_str()); }
};
struct W : World {
  std::unique_ptr<Jit> jit; KahanSum<double> k[4]; KahanSum<real_v> kv;
  Jit& J_(){ if(!jit) jit.reset(new Jit); return *jit; }
  J lanes(){ J a=J::mkarr(),b=J::mkarr(); for(int i=0;i<4;++i){ a.push(J(sb(k[i]()))); b.push(J(sb(kv().at(i)))); } return J::list({a,b}); }
  static J one(const Expression& e){ auto z=e(); return std::fabs(z.imag())>1e-13?J("complex"):J(show(z.real())); }
  static J sq(const Expression& e){ auto z=e(); return std::fabs(z.imag())>1e-13?J("complex"):J(show(z.real()*z.real())); }
  J apply(const J& o) override {
    const std::string& f=o["f"].str();
    if(f=="add"||f=="plus"){ double x[4]; for(int i=0;i<4;++i) x[i]=two(o["v"][i]); if(f=="add"){ for(int i=0;i<4;++i) k[i]+=x[i]; kv+=real_v(x); } else { for(int i=0;i<4;++i) k[i]=k[i]+x[i]; kv=kv+real_v(x); } return lanes(); }
    if(f=="klein"){ std::vector<double> q; for(auto& v: o["q"].a) q.push_back(std::ldexp(double(v[0].num()),116)+std::ldexp(double(v[1].num()),58)+double(v[2].num())); return J(sk(KahanBabushkaKleinSum(q))); }
    if(f=="knot"){ int n=o["k"].num()-1; J_().mps[Jit::key(n,o["i"].num()-1)]->setCurrentFitVal(o["v"].num()); return J("ok"); }
    if(f=="prep"){ int n=o["k"].num()-1; J_().s[n]->prepare(); J_().v[n]->prepare(); return J("ok"); }
    if(f=="eval"||f=="pair"){ int n=f=="eval"?o["k"].num()-1:7; auto& xs=o["x"].a; std::array<double,4> b; for(int i=0;i<4;++i) b[i]=fr(xs[i]); auto& S=*J_().s[n]; real_v vx(b); 
      if(f=="pair"){ J_().s[7]->prepare(); J_().v[7]->prepare(); }
      auto z=(*J_().v[n])(&vx); J p=J::mkarr(),q=J::mkarr();
      for(int i=0;i<4;++i){ auto c=S(&b[i]); if(f=="pair"){ p.push(J::list({J(show(c.real())),J(show(c.imag()))})); auto y=utils::at(z,i); if(std::abs(y-c)>1e-12) return J("lanes"); } else { p.push(J(c.imag()==0?show(c.real()):"complex")); auto y=utils::at(z,i); q.push(J(y.imag()==0?show(y.real()):"complex")); } }
      return f=="pair"?p:J::list({p,q}); }
    if(f=="bw") return one(BlattWeisskopf(Constant(fr(o["z"])),o["L"].num()));
    if(f=="bwn") return one(BlattWeisskopf_Norm(Constant(fr(o["z"])),Constant(fr(o["z0"])),o["L"].num()));
    if(f=="q2") return one(Q2(Constant(fr(o["s"])),Constant(fr(o["a"])),Constant(fr(o["b"]))));
    if(f=="bl") return sq(BL(Constant(fr(o["s"])),Constant(fr(o["m"])*fr(o["m"])),Constant(fr(o["a"])),Constant(fr(o["b"])),Constant(fr(o["r"])),o["L"].num()));
    if(f=="width") return sq(width(Constant(fr(o["s"])),Constant(fr(o["a"])),Constant(fr(o["b"])),Constant(fr(o["m"])),Constant(3.),Constant(fr(o["r"])),o["L"].num())/3.);
    if(f=="pol"){ std::vector<Expression> c; for(auto& x: o["c"].a) c.push_back(Constant(double(x.num()))); return one(pol(Constant(fr(o["x"])),c)); }
    throw std::logic_error("vjson op "+f);
  }
};
std::unique_ptr<World> makeWorld(){ return std::unique_ptr<World>(new W); }
