// Expression algebra driver (P06).
#include "driver.h"
#include "rat.h"
#include "AmpGen/Expression.h"
#include "AmpGen/Simplify.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/ExpressionParser.h"
#include "AmpGen/MinuitExpression.h"
using namespace AmpGen;
int verif_chunk=2000;
struct W : World {
  std::vector<std::unique_ptr<MinuitParameter>> ps; std::vector<double> vals; double v4=0; bool live=true;
  static double q(const J& j,int a){ return double(j[a].num())/double(j[a+1].num()); }
  Expression leaf(int k){
    if(!live) return Parameter("q"+std::to_string(k),vals[k-1]);
    if(k==4){ double* v=&v4; return LambdaExpression([v](){ return *v; }); }
    return MinuitParameterLink(ps[k-1].get()); }
  Expression build(const J& t){
    const std::string& o=t[0].str();
    if(o=="c"){ double re=q(t,1), im=q(t,3); return im==0?Expression(Constant(re)):Expression(Constant(complex_t(re,im))); }
    if(o=="p") return leaf(t[1].num());
    if(o=="pi") return Constant(M_PI); if(o=="e") return Constant(std::exp(1));
    if(o=="fpow") return fcn::fpow(build(t[1]),int(t[2].num()));
    if(o=="d"){ auto a=build(t[2]); auto& f=t[1].str();
      if(f=="log") return Log(a).d(); if(f=="sqrt") return Sqrt(a).d(); if(f=="exp") return Exp(a).d(); if(f=="sin") return Sin(a).d(); if(f=="cos") return Cos(a).d(); if(f=="tan") return Tan(a).d();
      if(f=="asin") return ASin(a).d(); if(f=="acos") return ACos(a).d(); if(f=="atan") return ATan(a).d(); if(f=="isqrt") return ISqrt(a).d(); throw std::logic_error("vjson d "+f); }
    Expression a=build(t[1]);
    if(t.size()==2){
      if(o=="neg") return -a; if(o=="sqrt") return fcn::sqrt(a); if(o=="isqrt") return fcn::isqrt(a); if(o=="abs") return fcn::abs(a); if(o=="norm") return fcn::norm(a); if(o=="conj") return fcn::conj(a);
      if(o=="real") return Real(a); if(o=="imag") return Imag(a); if(o=="exp") return fcn::exp(a); if(o=="log") return fcn::log(a); if(o=="sin") return fcn::sin(a); if(o=="cos") return fcn::cos(a); if(o=="tan") return fcn::tan(a);
      if(o=="asin") return fcn::asin(a); if(o=="acos") return fcn::acos(a); if(o=="atan") return fcn::atan(a); if(o=="cse") return make_cse(a); if(o=="csens") return make_cse(a,true); if(o=="simp") return Simplify(a);
      if(o=="simpx") return Expression(NormalOrderedExpression(a,true)); if(o=="safe_sqrt") return fcn::safe_sqrt(a); if(o=="complex_sqrt") return fcn::complex_sqrt(a); throw std::logic_error("vjson un "+o); }
    Expression b=build(t[2]);
    if(o=="?") return Ternary(a,b,build(t[3]));
    if(o=="+") return a+b; if(o=="-") return a-b; if(o=="*") return a*b; if(o=="/") return a/b; if(o=="^") return fcn::pow(a,b);
    if(o=="+="){ a+=b; return a; } if(o=="-="){ a-=b; return a; } if(o=="*="){ a*=b; return a; } if(o=="/="){ a/=b; return a; }
    if(o==">") return a>b; if(o=="<") return a<b; if(o==">=") return a>=b; if(o=="<=") return a<=b; if(o=="==") return a==b; if(o=="&&") return a&&b; if(o=="||") return a||b; if(o=="fmod") return Fmod(a,b); if(o=="atan2") return fcn::atan2(a,b);
    throw std::logic_error("vjson bin "+o);
  }
  void env(const J& e){ vals.clear(); for(size_t k=0;k<e.size();++k) vals.push_back(q(e[k],0)); 
    for(size_t k=0;k<3;++k){ if(ps.size()<=k) ps.emplace_back(new MinuitParameter("par"+std::to_string(k),Flag::Free,vals[k],1)); ps[k]->setCurrentFitVal(vals[k]); } v4=vals[3]; }
  J apply(const J& o) override {
    J r1=J::mkarr(),r2=J::mkarr(),r3=J::mkarr(),r4=J::mkarr(); auto& es=o["envs"];
    live=true; env(es[0]); Expression e=build(o["t"]), s=Simplify(e), x=make_cse(Expression(NormalOrderedExpression(e,true)),true);
    for(auto& v: es.a){ env(v); r1.push(showC(e())); r2.push(showC(s())); r3.push(showC(x())); }
    live=false; for(auto& v: es.a){ env(v); r4.push(showC(build(o["t"])())); }
    return J::list({r1,r2,r3,r4});
  }
};
std::unique_ptr<World> makeWorld(){ return std::unique_ptr<World>(new W); }
