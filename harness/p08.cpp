// Parameter transfer to compiled functions (P08).
#include "driver.h"
#include "AmpGen/Expression.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/CompiledExpression.h"
#include "AmpGen/CompilerWrapper.h"
#include "AmpGen/OptionsParser.h"
#include <unistd.h>
#include <dlfcn.h>
#include <fstream>
using namespace AmpGen;
int verif_chunk=1000;
using Fn = CompiledExpression<complex_t(const double*, const double*)>;
static std::string lib(){ return "./p08_"+std::to_string(::getppid())+".cpp"; }
struct W : World {
  MinuitParameterSet mps; double lam=0; std::vector<std::unique_ptr<Fn>> fns; std::map<std::string,MinuitParameter*> ps; std::map<std::string,unsigned> em{{"v",0}};
  W(){
    ps["p1"]=mps.add("p1",Flag::Free,1,1); ps["p2"]=mps.add("p2",Flag::Free,0,1); ps["k"]=mps.add("k",Flag::CompileTimeConstant,3./8,0);
    mps.add(new MinuitExpression({"alias","=","p1","+","p2"},&mps));
    Parameter v("v"); double* l=&lam; auto link=[this](const std::string& n){ return Expression(MinuitParameterLink(mps[n])); };
    Expression f[]={ v*link("p1")+link("p2"), v*Parameter("alias")+Parameter("loose",2.5), Expression(LambdaExpression([l](){ return *l; }))+link("alias")*v, link("k")*v+Parameter("p2") };
    std::vector<CompiledExpressionBase*> q;
    for(int i=0;i<4;++i){ fns.emplace_back(new Fn(f[i],"f"+std::to_string(i+1),&mps,em)); q.push_back(fns.back().get()); }
    std::string so=lib(); so.replace(so.size()-3,3,"so");
    std::string mark=lib()+".try"; if(::access(so.c_str(),R_OK)!=0){
      if(::access(mark.c_str(),R_OK)==0) throw std::runtime_error("the generated code does not compile");
      std::ofstream(mark)<<1; CompilerWrapper().compile(q,lib()); ::unlink(mark.c_str()); }
    else for(auto* e: q) e->link(so);
  }
  static J eighths(double x){ double y=8*x; return y==std::floor(y)?J((long long)y):J(std::to_string(y)); }
  Fn& fn(const J& o,const char* k="k"){ return *fns.at(o[k].num()-1); }
  J apply(const J& o) override {
    const std::string& f=o["f"].str();
    if(f=="set"){ double x=o["v"].num()/8.; if(o["p"].str()=="lam") lam=x; else ps.at(o["p"].str())->setCurrentFitVal(x); return J::mkarr(); }
    if(f=="prepare"){ fn(o).prepare(); return J::mkarr(); }
    if(f=="ack"){ fn(o).resetExternals(); return J::mkarr(); }
    if(f=="changed") return J::list({J(int(fn(o).hasExternalsChanged()))});
    if(f=="copy"){ fns.emplace_back(new Fn(fn(o))); return J::mkarr(); }
    if(f=="assign"){ fn(o)=fn(o,"j"); return J::mkarr(); }
    if(f=="eval"){ J r=J::mkarr(); for(auto& v: o["vs"].a){ double x=v.num(); auto z=fn(o)(&x); r.push(z.imag()==0?eighths(z.real()):J("complex")); } return r; }
    if(f=="frozen"||f=="standalone"){
      double u=std::ldexp(1.,-int(o["m"].num())); MinuitParameterSet s; s.add("k",f=="frozen"?Flag::CompileTimeConstant:Flag::Free,o["n"].num()*u,0);
      if(f=="frozen"){ OptionsParser::setArg("ASTResolver::CompileTimeConstants true"); }
      Expression k=o["link"].num()?Expression(MinuitParameterLink(s["k"])):Expression(Parameter("k")); static int serial=0; std::string name="./p08x_"+std::to_string(::getpid())+"_"+std::to_string(serial++);
      J r=J::mkarr(); auto show=[&](double y){ y/=u; r.push(y==std::floor(y)?J((long long)y):J(std::to_string(y))); };
      if(f=="frozen"){ Fn g(k*Parameter("v"),"g",&s,em); g.compile(name); OptionsParser::setArg("ASTResolver::CompileTimeConstants false"); for(auto& v: o["vs"].a){ double x=v.num(); show(g(&x).real()); } }
      else { Fn g(k*Parameter("v"),"g",&s,em,includeParameters(true)); g.compile(name); void* h=dlopen((name+"_"+std::to_string(g.hash())+".so").c_str(),RTLD_NOW); auto* w=(complex_t(*)(const double*))dlsym(h,"g_wParams"); for(auto& v: o["vs"].a){ double x=v.num(); show(w(&x).real()); } }
      return r; }
    throw std::logic_error("vjson op "+f);
  }
};
std::unique_ptr<World> makeWorld(){ return std::unique_ptr<World>(new W); }
