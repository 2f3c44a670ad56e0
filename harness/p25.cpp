// Amplitudes of whole decays (P25): the real expression of a decay, compiled, at events with integer momenta.
#include "driver.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/CompiledExpression.h"
#include "AmpGen/CompilerWrapper.h"
#include <cmath>
#include <map>
#include <unistd.h>
using namespace AmpGen;
int verif_chunk=1;
namespace AmpGen { namespace Lineshape { DECLARE_LINESHAPE(VA); DECLARE_LINESHAPE(VB); DECLARE_LINESHAPE(VC); DECLARE_LINESHAPE(VU); } }
DEFINE_LINESHAPE(VA){ return s1-2*s2+1+Constant(0,1)*(s+double(L)); }
DEFINE_LINESHAPE(VB){ return s2-s+3*double(L)+Constant(0,1)*(s1-3); }
DEFINE_GENERIC_SHAPE(VC){ return p.massSq()-1+Constant(0,2); }
DEFINE_GENERIC_SHAPE(VU){ return 1; }
static void mass(const std::string& n,double m){ auto p=const_cast<ParticleProperties*>(ParticlePropertiesList::get(n)); p->setProperty("mass",std::to_string(m/p->mass()*0+m)); double got=p->mass(); if(std::fabs(got-m)>1e-12) p->setProperty("mass",std::to_string(m*m/got)); }
static double massOf(const std::string& n){ return ParticlePropertiesList::get(n)->mass(); }
void verif_setup(){
  OptionsParser::setArg("Particle::SpinBasis Dirac"); OptionsParser::setArg("CompilerWrapper::Flags -O1 --std=c++17");
  for(auto n: {"pi+","pi-","pi0"}) mass(n,2); for(auto n: {"K+","K-","K0","K0S0"}) if(ParticlePropertiesList::get(n,true)) mass(n,3); mass("eta0",5); mass("p+",1); mass("pbar-",1); mass("J/psi0",4); mass("Lambda(c)+",4); mass("phi(1020)0",4);
  OptionsParser::setArg("00 1 0 0"); OptionsParser::setArg("par 1 1 1 1 -1 -1");
}
static J show(double x,double n){ double y=x*n, k=std::round(y); if(std::isfinite(y)&&std::fabs(y-k)<=1e-9*std::max(1.,std::max(n,std::fabs(y)))&&std::fabs(y-k)<0.2) return J((long long)k); return J(std::to_string(y)); }
struct W: World {
  J sums(const J& op,Particle& p,const std::vector<std::string>& fs){ std::vector<double> tot(op["evs"].size(),0); static int serial=0;
    static const char* c[]={"_Px","_Py","_Pz","_E"}; std::map<std::string,unsigned> em; for(unsigned i=0;i<fs.size();++i) for(unsigned j=0;j<4;++j) em[std::to_string(i)+c[j]]=4*i+j;
    for(auto& h: op["heads"].a) for(auto& q: op["pols"].a){ std::vector<int> st{int(h.num())}; for(auto& x: q.a) st.push_back(int(x.num())); Expression e=p.getExpression(nullptr,st); CompiledExpression<complex_t(const real_t*, const real_t*)> f(e,"amp",em); CompilerWrapper cw; cw.compile(f,"./sum"+std::to_string(::getpid())+"_"+std::to_string(serial++)); f.prepare();
      for(size_t n=0;n<tot.size();++n){ std::vector<double> ev; for(auto& v: op["evs"].a[n].a) for(int j=0;j<4;++j) ev.push_back(v.a[j].num()); tot[n]+=std::norm(f(ev.data())); } }
    J out=J::mkarr(); for(size_t n=0;n<tot.size();++n) out.push(show(tot[n],op["dens"].a[n].num())); return out; }
  J apply(const J& op) override { bool sum=op["f"].str()=="helsum", hel=sum||op["f"].str()=="hel"; if(!hel&&op["f"].str()!="amp") throw std::logic_error("vjson op"); OptionsParser::setArg(hel?"Particle::SpinFormalism Canonical":"Particle::SpinFormalism Covariant");
    auto& x=op["x"]; std::vector<std::string> fs; for(auto& n: x["fs"].a) fs.push_back(n.str());
    OptionsParser::setArg(std::string("Particle::SpinBasis ")+(fs.back()=="gamma0"?"Weyl":"Dirac"));
    Particle p(x["d"].str(),fs); if(!p.isStateGood()) return J("decay refused");
    if(sum) return sums(op,p,fs);
    std::vector<int> st{int(op["head"].num())}; for(auto& h: op["pol"].a) st.push_back(int(h.num()));
    Expression e=p.getExpression(nullptr,st);
    static const char* c[]={"_Px","_Py","_Pz","_E"}; std::map<std::string,unsigned> em; for(unsigned i=0;i<fs.size();++i) for(unsigned j=0;j<4;++j) em[std::to_string(i)+c[j]]=4*i+j;
    CompiledExpression<complex_t(const real_t*, const real_t*)> f(e,"amp",em); static int serial=0; CompilerWrapper cw; cw.compile(f,"./amp"+std::to_string(::getpid())+"_"+std::to_string(serial++)); f.prepare();
    bool inco=x["md"]["inco"].b, spin=!x["md"]["spin0"].b; double k=op["k"].num(); J out=J::mkarr();
    for(size_t n=0;n<op["evs"].size();++n){ std::vector<double> ev; double P[4]={0,0,0,0}; for(auto& v: op["evs"].a[n].a) for(int j=0;j<4;++j){ ev.push_back(v.a[j].num()); P[j]+=v.a[j].num(); }
      complex_t z=f(ev.data()); double N=1; auto fac=[&](const std::string& nm,double E){ auto q=ParticlePropertiesList::get(nm); if(q->twoSpin()==1) N*=std::sqrt((E+q->mass())/(2*q->mass())); };
      if(spin){ for(size_t i=0;i<fs.size();++i) fac(fs[i],ev[4*i+3]); fac(x["t"]["n"].str(),P[3]); }
      z/=N; if(hel) z=z*z; else if(inco) z=z*z*k; else z*=std::sqrt(k); double d=op["dens"].a[n].num(); out.push(J::list({show(z.real(),d),show(z.imag(),d)})); }
    return out; } };
std::unique_ptr<World> makeWorld(){ return std::make_unique<W>(); }
