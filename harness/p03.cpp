// Options driver (P03).  Files are written in the driver's own scratch working directory.
#include "driver.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/enum.h"
#include <fstream>
#include <unistd.h>
namespace AmpGen { make_enum(VFlag, Free, Hide, Fix, CompileTimeConstant, Blind) }
using namespace AmpGen;
int verif_chunk=1;
namespace {
J jv(const std::string& x){ return J(x); } J jv(double x){ return num(x); } J jv(int x){ return J(x); } J jv(unsigned x){ return J(x); } J jv(size_t x){ return J(x); } J jv(bool x){ return J(x); }
std::string fname(VFlag f){ switch(f){ case VFlag::Free: return "Free"; case VFlag::Hide: return "Hide"; case VFlag::Fix: return "Fix"; case VFlag::CompileTimeConstant: return "CompileTimeConstant"; case VFlag::Blind: return "Blind"; case VFlag::Invalid: return "Invalid"; } return "out-of-range"; }
J jv(VFlag f){ return J(fname(f)); }
template<class T> T dv(const J& j); 
template<> std::string dv(const J& j){ return j.str(); } template<> double dv(const J& j){ return j.num(); } template<> int dv(const J& j){ return j.num(); } template<> unsigned dv(const J& j){ return j.num(); } template<> size_t dv(const J& j){ return j.num(); } template<> bool dv(const J& j){ return j.boolean(); }
template<> VFlag dv(const J& j){ for(auto f: {VFlag::Free,VFlag::Hide,VFlag::Fix,VFlag::CompileTimeConstant,VFlag::Blind}) if(fname(f)==j.str()) return f; throw std::logic_error("vjson flag"); }
template<class T> J list(const NamedParameter<T>& p){ J r=J::mkarr(); for(size_t k=0;k<p.size();++k){ r.push(jv(T(p.getVal(k)))); if(T(p.getVector()[k])!=T(p.getVal(k))) r.push("vector!=val"); } if(p.size() && !(T(p)==T(p.getVal(0)))) r.push("conv"); return r; }
template<class T> J get(const J& o){ auto& d=o["def"]; if(d.size()==1) return list(NamedParameter<T>(o["key"].str(),dv<T>(d[0]))); std::vector<T> v; for(auto& x: d.a) v.push_back(dv<T>(x)); return list(NamedParameter<T>(o["key"].str(),v)); }
template<class T> J numbered(const J& o){ J r=J::mkarr(); for(auto v: NamedParameter<T>::getVectorArgument(o["key"].str(),T())) r.push(jv(T(v))); return r; }
}
struct W : World {
  OptionsParser* op = OptionsParser::getMe(); std::unique_ptr<NamedParameter<int>> np; std::vector<std::string> made;
  W(){ op->setQuiet(); }
  ~W(){ for(auto& f: made) ::unlink(f.c_str()); }
  void files(const J& o){ for(auto& f: made) ::unlink(f.c_str()); made.clear(); for(auto& f: o["files"].a){ std::ofstream out(f[0].str()); made.push_back(f[0].str()); bool first=true; for(auto& l: f[1].a){ if(!first) out<<"\n"; first=false; out<<l.str(); } if(f[1].size()%2) out<<"\r\n"; } }
  J toks(const std::vector<std::string>& t){ return J::arr(t); }
  J apply(const J& o) override {
    const std::string& f=o["f"].str(); J r(true);
    if(o.has("files")) files(o);
    if(f=="import") op->import(o["name"].str());
    else if(f=="cli"){ std::vector<std::string> av{"prog"}; for(auto& x: o["argv"].a) av.push_back(x.str()); std::vector<char*> p; for(auto& x: av) p.push_back(&x[0]); p.push_back(nullptr); OptionsParser::setArgs(av.size(),p.data()); }
    else if(f=="arg") OptionsParser::setArg(o["text"].str());
    else if(f=="get"){ auto& t=o["ty"].str(); r = t=="string"?get<std::string>(o):t=="double"?get<double>(o):t=="int"?get<int>(o):t=="uint"?get<unsigned>(o):t=="size"?get<size_t>(o):t=="bool"?get<bool>(o):get<VFlag>(o); }
    else if(f=="numbered"){ auto& t=o["ty"].str(); r = t=="string"?numbered<std::string>(o):numbered<int>(o); }
    else if(f=="np"){ std::vector<int> v; for(auto& x: o["def"].a) v.push_back(x.i); np.reset(new NamedParameter<int>(o["key"].str(),v)); r=list(*np); }
    else if(f=="npset"){ if(o["i"].num()==0) *np = int(o["x"].num()); else np->setVal(o["x"].num(),o["i"].num()); r=list(*np); }
    else if(f=="npall"){ std::vector<int> v; for(auto& x: o["xs"].a) v.push_back(x.i); *np = v; r=list(*np); }
    else if(f=="npget"){ try { r=J(np->getVal(o["i"].num())); } catch(std::exception&){ r=J("throws"); } }
    else throw std::logic_error("vjson op "+f);
    J ord=J::mkarr(), look=J::mkarr(); for(auto& t: op->getInputOrdered()) ord.push(toks(t));
    int n=0; for(auto it=op->begin(); it!=op->end(); ++it){ ++n; if(it->second.empty()||it->first!=it->second[0]) n+=1000; }
    for(auto k: {"a","b0","help","D0{K-,pi+}","{x}"}){ auto it=op->find(k); look.push(it==op->end()?J::mkarr():toks(it->second)); }
    return J::list({r,ord,n,look,OptionsParser::printHelp()});
  }
};
std::unique_ptr<World> makeWorld(){ return std::unique_ptr<World>(new W); }
