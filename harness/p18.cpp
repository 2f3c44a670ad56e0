// Amplitude models: coherent, incoherent and polarised sums, their caches and integrals (P18).
#include "driver.h"
#include "AmpGen/CoherentSum.h"
#include "AmpGen/IncoherentSum.h"
#include "AmpGen/PolarisedSum.h"
#include "AmpGen/SumPDF.h"
#include "AmpGen/FitFraction.h"
#include "AmpGen/ExtendLikelihoodBase.h"
#include "AmpGen/EventList.h"
#include "AmpGen/EventListSIMD.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/OptionsParser.h"
#include <set>
#include <cstdlib>
#include <new>
using namespace AmpGen;
int verif_chunk=1;
// lists that belong to the caller must never be released by a model
static const void* g_mine[256]; static int g_n=0; static bool g_freed=false;
static bool mine(void* p){ for(int i=0;i<g_n;++i) if(g_mine[i]==p){ g_freed=true; return true; } return false; }
void operator delete(void* p) noexcept { if(p&&!mine(p)) std::free(p); }
void operator delete(void* p,size_t) noexcept { if(p&&!mine(p)) std::free(p); }
void operator delete(void* p,std::align_val_t) noexcept { if(p&&!mine(p)) std::free(p); }
void operator delete(void* p,size_t,std::align_val_t) noexcept { if(p&&!mine(p)) std::free(p); }
namespace AmpGen { namespace Lineshape {
  DECLARE_LINESHAPE(VA); DECLARE_LINESHAPE(VB); DECLARE_LINESHAPE(VC); DECLARE_LINESHAPE(VD);
} }
static Expression X(int k){ static const char* c[]={"_Px","_Py","_Pz","_E"}; return Parameter(std::to_string((k-1)/4)+c[(k-1)%4]); }
static const Expression I1(){ return Constant(0,1); }
DEFINE_GENERIC_SHAPE(VA){ return X(1)+Parameter("va")*X(2)+I1()*X(5); }
DEFINE_GENERIC_SHAPE(VB){ return Parameter("vb")*X(3)+I1()*(X(6)+Parameter("va")*X(9)); }
DEFINE_GENERIC_SHAPE(VC){ return X(9)-1+I1()*X(2); }
DEFINE_GENERIC_SHAPE(VD){ return X(10)+Parameter("vb")+I1()*X(7); }
static bool asFrac(double x,long long& p,long long& q){ const long long lim=1000000;
  double y=x; long long p0=0,q0=1,p1=1,q1=0; double tol=1e-13*std::max(1.,std::fabs(x));
  for(int k=0;k<60;++k){ double f=std::floor(y); if(std::fabs(f)>1e9) return false; long long a=(long long)f,p2=a*p1+p0,q2=a*q1+q0; if(std::llabs(p2)>lim||q2>lim) return false;
    p0=p1;q0=q1;p1=p2;q1=q2; if(std::fabs(x-double(p1)/double(q1))<=tol){ p=p1;q=q1; return true; } if(y-f<1e-14) return false; y=1/(y-f); }
  return false; }
static J frac(double x){ if(std::isnan(x)) return J("nan"); if(std::isinf(x)) return J("inf"); long long p,q; if(asFrac(x,p,q)) return J(q==1?std::to_string(p):std::to_string(p)+"/"+std::to_string(q)); return J("big"); }
static J cpx(complex_t z){ return J::list({frac(z.real()),frac(z.imag())}); }
static bool close(double a,double b){ return std::fabs(a-b)<=1e-11*std::max(1.,std::max(std::fabs(a),std::fabs(b)))||(std::isnan(a)&&std::isnan(b))||a==b; }
static Event mk(int id){ double d[12]; for(int k=1;k<=12;++k) d[k-1]=((7*id+3*k*k+id*k)%5)-2; Event e(d,12); e.setWeight((((id*3)%7)+1)/4.); e.setGenPdf(1<<(id%3)); return e; }
static const char* fsn="{K+,pi-,pi0}"; static const char* L[]={"VA","VB","VC","VD"};
static std::string dec(const std::string& h,int i){ return h+"[BgSpin0;"+L[i]+"]"+fsn; }
static MinuitParameterSet* mps; static CoherentSum* C; static IncoherentSum* I; static PolarisedSum* P; static std::string failed;
static const EventType& type(){ static EventType t({"D0","K+","pi-","pi0"}); return t; }
void verif_setup(){
  try {
    OptionsParser::setArg("CouplingConstant::Coordinates cartesian"); OptionsParser::setArg("CompilerWrapper::Flags -O1 --std=c++17"); 
    mps=new MinuitParameterSet; auto amp=[](const std::string& n){ mps->add(n+"_Re",Flag::Free,1,0.1); mps->add(n+"_Im",Flag::Free,0,0.1); };
    for(int i=0;i<4;++i) amp(dec("D0",i)); for(int i=0;i<3;++i) amp("Inco_"+dec("D0",i)); for(int i=1;i<3;++i) amp(dec("Dbar0",i));
    for(auto n: {"va","vb","yC","yI","yP"}) mps->add(n,Flag::Free,1,0.1); for(auto n: {"Px","Py","Pz"}) mps->add(n,Flag::Free,0,0.1);
    C=new CoherentSum(type(),*mps); I=new IncoherentSum(type(),*mps,"Inco");
    OptionsParser::setArg("PolarisedSum::SpaceType flavour"); P=new PolarisedSum(type(),*mps);
    C->setWeight((*mps)["yC"]); I->setWeight((*mps)["yI"]); P->setWeight((*mps)["yP"]);
  } catch(const std::exception& e){ failed=e.what(); if(failed.empty()) failed="exception"; }
}
struct W : World {
  std::map<std::string,EventListSIMD*> ev; 
  W(){ if(!failed.empty()) throw std::runtime_error(failed); }
  static std::vector<int> ids(const J& a){ std::vector<int> r; for(auto& x: a.a) r.push_back(x.num()); return r; }
  static EventList* scalar(const J& a){ auto* l=new EventList(type()); for(int i: ids(a)) l->push_back(mk(i)); g_mine[g_n++]=l; return l; }
  static EventListSIMD* simd(const J& a){ EventList l(type()); for(int i: ids(a)) l.push_back(mk(i)); auto* s=new EventListSIMD(l); g_mine[g_n++]=s; return s; }
  template<class T> static int indexOf(T* pdf,unsigned n,const std::string& ls,const std::string& head){ int r=-1; for(unsigned i=0;i<n;++i) if((*pdf)[i].decayDescriptor().find(ls)!=std::string::npos&&(*pdf)[i].decayDescriptor().find(head+"[")==0){ if(r!=-1) return -2; r=i; } return r; }
  template<class F> J pdf(const std::string& k,F&& f){ if(k=="C") return f(*C); if(k=="I") return f(*I); return f(*P); }
  J apply(const J& o) override { J r=go(o); if(g_freed){ g_freed=false; return J("a list of the caller was released"); } return r; }
  J go(const J& o){
    const std::string& f=o["f"].str(); J none=J::mkarr();
    if(f=="par"){ (*mps)[o["n"].str()]->setCurrentFitVal(o["v"].num()); return none; }
    if(f=="cpl"){ int i=o["i"].num()-1; const std::string& k=o["k"].str(); std::string n=k=="C"?dec("D0",i):k=="I"?"Inco_"+dec("D0",i):dec("Dbar0",i+1); (*mps)[n+"_Re"]->setCurrentFitVal(o["re"].num()); (*mps)[n+"_Im"]->setCurrentFitVal(o["im"].num()); return none; }
    const std::string k= f=="like"||f=="ratio"||f=="lasso" ? "" : o["k"].str(); 
    if(f=="setev") return pdf(k,[&](auto& p){ ev[k]=simd(o["es"]); if(o["sc"].boolean()) p.setEvents(*scalar(o["es"])); else p.setEvents(*ev[k]); return none; });
    if(f=="setmc") return pdf(k,[&](auto& p){ if(o["sc"].boolean()) p.setMC(*scalar(o["es"])); else p.setMC(*simd(o["es"])); return none; });
    if(f=="prepare") return pdf(k,[&](auto& p){ p.prepare(); return none; });
    if(f=="reset") return pdf(k,[&](auto& p){ p.reset(o["all"].boolean()); return none; });
    if(f=="drop"){ if(k=="C") delete C; if(k=="I") delete I; if(k=="P") delete P; return none; }
    if(f=="read"){ J r=J::mkarr(); auto& l=*ev[k]; for(size_t i=0;i<l.size();++i){ Event e=l.at(i); double pr=0,bl=0; J a("-");
        if(k=="C"){ a=cpx(C->getVal(e)); pr=(*C)(e); bl=(*C)((const real_v*)nullptr,i/4).at(i%4); }
        if(k=="I"){ a=frac(I->prob_unnormalised(e)); pr=(*I)(e); bl=(*I)((const real_v*)nullptr,i/4).at(i%4); if(!close(pr,(*I)((const double*)nullptr,i))) return J("event and index differ"); }
        if(k=="P"){ pr=(*P)(e); bl=(*P)((const real_v*)nullptr,i/4).at(i%4); if(!close(pr,(*P)((const double*)nullptr,i))) return J("event and index differ"); }
        if(!close(pr,bl)) return J("event and block differ"); if(k=="P") a=J::mkarr(); else if(k=="I") a=J::list({a}); a.push(frac(pr)); r.push(a); } return r; }
    if(f=="nocache"){ J r=J::mkarr(); for(int i: ids(o["es"])){ Event e=mk(i); if(k=="C") r.push(cpx(C->getValNoCache(e))); if(k=="I") r.push(J::list({frac(I->prob_unnormalisedNoCache(e))})); if(k=="P") r.push(J::list({frac(P->getValNoCache(e))})); } return r; }
    if(f=="norm"){ if(k=="P") return J::list({J::list({frac(P->norm())})}); J m=J::mkarr(); m.push(J::list({frac(k=="C"?C->norm():I->norm())})); CoherentSum* c=k=="C"?C:I; unsigned n=c->size(); if(n!=(k=="C"?4u:3u)) return J("amplitudes");
      if(k=="C") for(unsigned i=0;i<n;++i) for(unsigned j=i;j<n;++j){ int x=indexOf(C,n,L[i],"D0"),y=indexOf(C,n,L[j],"D0"); if(x<0||y<0) return J("names"); if(std::abs(C->norm(x,y)-std::conj(C->norm(y,x)))>1e-12*(1+std::abs(C->norm(x,y)))) return J("integrals of a pair in the two orders differ"); m.push(cpx(C->norm(x,y))); }
      else for(unsigned i=0;i<n;++i){ int x=indexOf(I,n,L[i],"D0"); if(x<0) return J("names"); m.push(cpx(I->norm(x))); }
      return m; }
    if(f=="eval"){ bool mc=o["mc"].boolean(); const EventListSIMD* l=mc?nullptr:simd(o["es"]); std::vector<Event> es; { EventList t(type()); for(int i: ids(o["es"])) t.push_back(mk(i)); for(auto& e: t) es.push_back(e); }
      return pdf(k,[&](auto& p){ J r=J::mkarr(); auto fn=p.evaluator(l); auto co=p.componentEvaluator(l); std::function<complex_t(const Event&)> af; if(k=="C") af=C->amplitudeEvaluator(l);
        std::vector<std::vector<size_t>> at; auto has=[&](const std::string& s,const char* x){ return s.find(x)!=std::string::npos; };
        for(auto& e: es){ auto v=co(e); double s=0; for(double x: v) s+=x; J c=J::mkarr(); 
          if(k=="C") for(int i=0;i<4;++i) for(int j=i;j<4;++j){ double t=0; int n=0; for(size_t q=0;q<v.size();++q) if(i==j? (co.keys[q].find(L[i])!=co.keys[q].rfind(L[i])) : (has(co.keys[q],L[i])&&has(co.keys[q],L[j]))){ t+=v[q]; ++n; } if(n!=1) return J("components"); c.push(frac(t)); }
          if(k=="I") for(int i=0;i<3;++i){ double t=0; int n=0; for(size_t q=0;q<v.size();++q) if(has(co.keys[q],L[i])){ t+=v[q]; ++n; } if(n!=1) return J("components"); c.push(frac(t)); }
          J row=J::list({frac(fn(e)),frac(s)}); for(auto& x: c.a) row.push(x); if(k=="C"){ complex_t z=af(e); row.push(frac(z.real())); row.push(frac(z.imag())); } r.push(row); }
        return r; }); }
    if(f=="frac"){ auto run=[&](auto* p,unsigned n)->J{ std::vector<size_t> all; for(unsigned i=0;i<n;++i){ int x=indexOf(p,n,L[i],"D0"); if(x<0) return J("names"); all.push_back(x); }
        FitFractionCalculator<std::decay_t<decltype(*p)>> fc(p,all,o["re"].boolean()); for(unsigned i=0;i<n;++i) fc.emplace_back(L[i],std::vector<size_t>{all[i]}); fc.emplace_back("01",std::vector<size_t>{all[0],all[1]}); fc.emplace_back("0x2",std::vector<size_t>{all[0]},std::vector<size_t>{all[2]});
        J r=J::mkarr(); for(double x: fc()) r.push(frac(x)); return J::list({r}); };
      return k=="C"?run(C,4):run(I,3); }
    if(f=="ratio"){ auto names=[&](const J& a){ std::string r; for(auto& x: a.a){ int q=indexOf(C,4,L[int(x.num())-1],"D0"); if(q<0) throw std::logic_error("names"); r+=" "+(*C)[q].decayDescriptor(); } return r; };
      OptionsParser::setArg("verif_numChannels"+names(o["nu"])); OptionsParser::setArg("verif_denChannels"+names(o["de"])); PartialWidthConstraint c(C); c.configure("PartialWidthConstraint verif "+std::to_string((int)o["w"].num())+" "+std::to_string((int)o["r"].num()),*mps); return J::list({J::list({frac(std::fabs(c()))})}); }
    if(f=="lasso"){ LASSO c(C); c.configure("LASSO "+std::to_string((int)o["w"].num()),*mps); J r=J::mkarr(); double sum=0; for(int i=0;i<4;++i){ int q=indexOf(C,4,L[i],"D0"); if(q<0) return J("names"); double v=std::norm((*C)[q].coefficient)*C->norm(q,q).real(); sum+=std::sqrt(v); r.push(frac(v)); }
      if(!close(std::fabs(c()),o["w"].num()*sum)) return J("penalty differs"); return J::list({r}); }
    if(f=="like"){ std::vector<std::string> ks; for(auto& x: o["ks"].a) ks.push_back(x.str()); bool sc=o["sc"].boolean(); EventList* a=scalar(o["es"]); EventListSIMD* b=simd(o["es"]); for(auto& x: ks) ev[x]=b;
      auto run=[&](auto& list,auto&... p)->J{ auto s=make_likelihood(list,p...); double v=s.getVal(),ref=0; for(size_t i=0;i<list.size();++i){ Event e=list.at(i); double t=0; (void)std::initializer_list<int>{(t+=p(e),0)...}; if(!close(t,s(e))) return J("sum differs"); ref+=e.weight()*std::log(t); }
        ref*=-2; if(std::isfinite(ref)&&!(std::fabs(v-ref)<=1e-9*std::max(1.,std::fabs(ref)))) return J("likelihood "+std::to_string(v)+" instead of "+std::to_string(ref));
        auto e2=s.evaluator(&list); for(size_t i=0;i<list.size();++i) if(!close(e2(list.at(i)),s(list.at(i)))) return J("evaluator differs"); return J("ok"); };
      std::string key; for(auto& x: ks) key+=x;
      if(key=="C") return sc?run1(*a,run,*C):run(*b,*C); if(key=="I") return run(*b,*I); if(key=="P") return run(*b,*P); if(key=="CI") return run(*b,*C,*I); if(key=="CP") return run(*b,*C,*P); if(key=="CIP") return run(*b,*C,*I,*P); }
    throw std::logic_error("vjson op "+f);
  }
  template<class R,class T> static J run1(EventList& l,R&,T& p){ auto s=make_likelihood(l,p); double v=s.getVal(),ref=0; for(size_t i=0;i<l.size();++i) ref+=l[i].weight()*std::log(p(l[i])); ref*=-2; if(std::isfinite(ref)&&!(std::fabs(v-ref)<=1e-9*std::max(1.,std::fabs(ref)))) return J("likelihood "+std::to_string(v)+" instead of "+std::to_string(ref)); return J("ok"); }
};
std::unique_ptr<World> makeWorld(){ return std::unique_ptr<World>(new W); }
