// Compiled expressions (P07): trees compiled just in time and evaluated one event at a time, as batch, in vector lanes.
#include "driver.h"
#include "rat.h"
#include "AmpGen/Expression.h"
#include "AmpGen/Simplify.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/CompiledExpression.h"
#include "AmpGen/CompilerWrapper.h"
#include "AmpGen/Tensor.h"
#include "AmpGen/simd/utils.h"
#include <fstream>
#include <map>
#include <unistd.h>
using namespace AmpGen;
int verif_chunk=1;
static const std::string HARNESS=std::string(__FILE__).substr(0,std::string(__FILE__).rfind('/'));
using Scalar = CompiledExpression<complex_t(const double*, const double*)>;
using Vector = CompiledExpression<complex_v(const double*, const real_v*)>;
using Many   = CompiledExpression<void(complex_v*, const size_t*, const double*, const real_v*)>;
struct W : World {
  MinuitParameterSet mps; std::map<std::string,Expression> memo; bool share=false; double l4=0,l5=0; std::vector<double> def;
  std::vector<MinuitParameter*> ps;
  static double q(const J& j,int a){ return double(j[a].num())/double(j[a+1].num()); }
  static std::function<double()> peek(double* v){ return [v](){ return *v; }; }
  // the parameters: 1 linked, 2 by name, 3 not in the set (default value), 4,5 functions, 6 linked alias 1+2, 7 the alias by name, 8,9 the parts of a complex parameter
  Expression par(int k){
    if(k==1) return MinuitParameterLink(mps["par1"]);
    if(k==2) return Parameter("par2");
    if(k==3) return Parameter("loose",def[0]);
    if(k==4||k==5){ double* v = k==4?&l4:&l5; return LambdaExpression([v](){ return *v; }); }
    if(k==6) return MinuitParameterLink(mps["alias"]);
    if(k==7) return Parameter("alias");
    throw std::logic_error("vjson par"); }
  Expression build(const J& t){
    const std::string& o=t[0].str();
    if(o=="c"){ double re=q(t,1), im=q(t,3); return im==0?Expression(Constant(re)):Expression(Constant(complex_t(re,im))); }
    if(o=="v") return Parameter("ev"+std::to_string(t[1].num()));
    if(o=="p") return par(t[1].num());
    if(o=="z") return ComplexParameter(Parameter("zr"),Parameter("zi"));
    if(o=="pi") return Constant(M_PI);
    if(o=="fpow") return fcn::fpow(build(t[1]),int(t[2].num()));
    if((o=="cse"||o=="csens") && share){ auto k=t.dump(); auto it=memo.find(k); if(it!=memo.end()) return it->second; auto e=make_cse(build(t[1]),o=="csens"); memo.emplace(k,e); return e; }
    Expression a=build(t[1]);
    if(t.size()==2){
      if(o=="neg") return -a; if(o=="sqrt") return fcn::sqrt(a); if(o=="isqrt") return fcn::isqrt(a); if(o=="abs") return fcn::abs(a); if(o=="norm") return fcn::norm(a); if(o=="conj") return fcn::conj(a);
      if(o=="real") return Real(a); if(o=="imag") return Imag(a); if(o=="exp") return fcn::exp(a); if(o=="log") return fcn::log(a); if(o=="sin") return fcn::sin(a); if(o=="cos") return fcn::cos(a); if(o=="tan") return fcn::tan(a);
      if(o=="asin") return fcn::asin(a); if(o=="acos") return fcn::acos(a); if(o=="atan") return fcn::atan(a); if(o=="cse") return make_cse(a); if(o=="csens") return make_cse(a,true); if(o=="simp") return Simplify(a);
      if(o=="simpx") return Expression(NormalOrderedExpression(a,true)); if(o=="safe_sqrt") return fcn::safe_sqrt(a); if(o=="complex_sqrt") return fcn::complex_sqrt(a); throw std::logic_error("vjson un "+o); }
    Expression b=build(t[2]);
    if(o=="?") return Ternary(a,b,build(t[3]));
    if(o=="+") return a+b; if(o=="-") return a-b; if(o=="*") return a*b; if(o=="/") return a/b; if(o=="^") return fcn::pow(a,b);
    if(o==">") return a>b; if(o=="<") return a<b; if(o==">=") return a>=b; if(o=="<=") return a<=b; if(o=="==") return a==b; if(o=="&&") return a&&b; if(o=="||") return a||b; if(o=="fmod") return Fmod(a,b); if(o=="atan2") return fcn::atan2(a,b);
    throw std::logic_error("vjson bin "+o);
  }
  void set(const J& p){ ps[0]->setCurrentFitVal(q(p[0],0)); ps[1]->setCurrentFitVal(q(p[1],0)); l4=q(p[3],0); l5=q(p[4],0); ps[2]->setCurrentFitVal(q(p[7],0)); ps[3]->setCurrentFitVal(q(p[8],0)); }
  J apply(const J& o) override {
    auto& pars=o["pars"]; auto& evs=o["evs"]; share=o["share"].num()!=0;
    ps.push_back(mps.add("par1",Flag::Free,0,1)); ps.push_back(mps.add("par2",Flag::Free,0,1)); ps.push_back(mps.add("zr",Flag::Free,0,1)); ps.push_back(mps.add("zi",Flag::Free,0,1));
    mps.add(new MinuitExpression({"alias","=","par1","+","par2"},&mps));
    def={q(pars[0][2],0)}; set(pars[0]);
    std::map<std::string,unsigned> em{{"ev1",0},{"ev2",1}};
    size_t N=evs.size(), nb=utils::aligned_size<real_v>(N)/real_v::size; constexpr size_t S=real_v::size, stride=3, cs=2;
    std::vector<double> sd(N*stride); std::vector<real_v> vd(nb*stride);
    for(size_t i=0;i<nb*S;++i) for(size_t k=0;k<2;++k){ double x=q(evs[std::min(i,N-1)][k],0); if(i<N) sd[i*stride+k]=x; vd[(i/S)*stride+k].to_ptr()[i%S]=x; }
    auto& ts=o["ts"]; size_t T=ts.size(); bool simd=o["simd"].num()!=0;
    std::vector<std::unique_ptr<Scalar>> sc; std::vector<std::unique_ptr<Vector>> vc; std::vector<CompiledExpressionBase*> sp, vp; std::vector<Expression> all;
    for(size_t i=0;i<T;++i){ Expression e=build(ts[i]); all.push_back(e);
      sc.emplace_back(new Scalar(e,"s"+std::to_string(i),&mps,em)); sp.push_back(sc.back().get());
      if(simd){ vc.emplace_back(new Vector(e,"w"+std::to_string(i),&mps,em)); vp.push_back(vc.back().get()); } }
    CompilerWrapper cw; cw.compile(sp,"./scalar.cpp");
    std::unique_ptr<Many> many;
    if(simd){ CompilerWrapper cv; cv.addHeader(HARNESS+"/p07_simd.h"); cv.compile(vp,"./vector.cpp");
      many.reset(new Many(TensorExpression(Tensor(all,std::vector<unsigned>{(unsigned)T})),"many",&mps,em)); static int serial=0; cw.compile(*many,"./many"+std::to_string(::getpid())+"_"+std::to_string(serial++)); }
    J rt=J::mkarr(); for(size_t i=0;i<T;++i) rt.push(J::mkarr());
    auto column=[&](size_t i,auto f){ J r=J::mkarr(); for(size_t e=0;e<N;++e) r.push(showC(f(e))); rt.a[i].push(r); };
    for(auto& p: pars.a){ set(p); for(auto* c: sp) c->prepare(); for(auto* c: vp) c->prepare();
      std::vector<complex_v> mb(nb*T*cs); std::vector<size_t> slot(T); for(size_t i=0;i<T;++i) slot[i]=T-1-i;
      if(simd){ many->prepare(); many->batch(nb,stride,T,(void*)nullptr,mb.data(),slot.data(),many->externBuffer().data(),vd.data()); }
      for(size_t i=0;i<T;++i){
        column(i,[&](size_t e){ return (*sc[i])(sd.data()+e*stride); });
        std::vector<complex_t> sb(N*cs); sc[i]->batch(N,stride,cs,sb.data(),sc[i]->externBuffer().data(),sd.data());
        column(i,[&](size_t e){ return sb[e*cs]; });
        if(simd){
          column(i,[&](size_t e){ return utils::at((*vc[i])(vd.data()+(e/S)*stride),e%S); });
          std::vector<complex_v> vb(nb*cs); vc[i]->batch(nb,stride,cs,vb.data(),vc[i]->externBuffer().data(),vd.data());
          column(i,[&](size_t e){ return utils::at(vb[(e/S)*cs],e%S); });
          column(i,[&](size_t e){ return utils::at(mb[(e/S)*T+slot[i]],e%S); }); } } }
    return rt;
  }
};
std::unique_ptr<World> makeWorld(){ return std::unique_ptr<World>(new W); }
