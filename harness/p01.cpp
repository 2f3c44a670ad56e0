// Parameter store driver (P01, P02).
#include "driver.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/Expression.h"
#include <sstream>
using namespace AmpGen;
int verif_chunk=200;
static Flag flagOf(const std::string& s){
  if(s=="Free") return Flag::Free; if(s=="Hide") return Flag::Hide; if(s=="Fix") return Flag::Fix;
  if(s=="CompileTimeConstant") return Flag::CompileTimeConstant; if(s=="Blind") return Flag::Blind; throw std::logic_error("vjson flag"); }
static std::string nameOf(Flag f){ switch(f){ case Flag::Free: return "Free"; case Flag::Hide: return "Hide"; case Flag::Fix: return "Fix"; case Flag::CompileTimeConstant: return "CompileTimeConstant"; case Flag::Blind: return "Blind"; default: return "?"; } }
struct W : World {
  MinuitParameterSet* mps = new MinuitParameterSet();
  std::vector<MinuitParameter*> objs; std::vector<bool> alias;
  std::vector<std::string> names;
  ~W(){ delete mps; }
  int id(const MinuitParameter* p) const { if(!p) return 0; for(size_t k=0;k<objs.size();++k) if(objs[k]==p) return k+1; return -1; }
  int own(MinuitParameter* p){ if(!p) return 0; int k=id(p); if(k>0) return k; objs.push_back(p); alias.push_back(false); return objs.size(); }
  J obs(const J& r){
    J list=J::mkarr(), look=J::mkarr(), ob=J::mkarr();
    const MinuitParameterSet& c=*mps;
    for(auto p=c.begin();p!=c.end();++p) list.push(J::list({id(*p),(*p)->name()}));
    size_t n=0; for(auto& p: *mps){ (void)p; ++n; }
    int sz=mps->size(); if((int)n!=sz) sz=-1;
    for(int k=0;k<(int)mps->size();++k) if((*mps)[size_t(k)]!=mps->at(size_t(k)) || id(mps->at(size_t(k)))!=list.a[k].a[0].i) sz=-2;
    if(mps->at(size_t(mps->size()))!=nullptr) sz=-3;
    for(auto& q: names) look.push(J::list({id(mps->find(q)),id(mps->at(q)),id((*mps)[q]),id(c[q])}));
    for(size_t k=0;k<objs.size();++k){ auto& p=*objs[k];
      double m=p.mean(); if(m!=double(p)) m=1e6+m; MinuitProxy px(&p,3); if(double(px)!=p.mean()) m=2e6;
      ob.push(J::list({p.name(),nameOf(p.flag()),num(m),num(p.meanInit()),num(p.stepInit()),num(p.minInit()),num(p.maxInit()),num(p.err()),num(p.errPos()),num(p.errNeg()),p.index(),int(p.isFixed()),int(p.isFree()),int(p.isBlind())})); }
    return J::list({r,list,sz,look,ob});
  }
  J apply(const J& o) override {
    if(names.empty()) names = getenv("VERIF_NAMES5") ? std::vector<std::string>{"a","b","c_Re","d::x","e e"} : std::vector<std::string>{"a","b","c_Re"};
    const std::string& f=o["f"].str();
    auto P=[&]{ return objs.at(o["i"].num()-1); };
    auto N=[&](const char* k){ return double(o[k].num()); };
    J r(true);
    if(f=="add"||f=="addget"){
      auto p = f=="add" ? mps->add(o["n"].str(),flagOf(o["flag"].str()),N("m"),N("s"),N("lo"),N("hi")) : mps->addOrGet(o["n"].str(),flagOf(o["flag"].str()),N("m"),N("s"),N("lo"),N("hi"));
      r=J(own(p));
    } else if(f=="addptr"){
      auto fl=flagOf(o["flag"].str());
      // the flagless constructor means a free parameter
      auto p = (fl==Flag::Free && o["m"].num()%2) ? new MinuitParameter(o["n"].str(),N("m"),N("s"),N("lo"),N("hi")) : new MinuitParameter(o["n"].str(),fl,N("m"),N("s"),N("lo"),N("hi"));
      own(p); r=J(mps->add(p));
    } else if(f=="alias"){
      Expression e = Constant(N("k"))*Expression(MinuitParameterLink(objs.at(o["t"].num()-1))) + Constant(N("c"));
      auto p=new MinuitExpression(o["n"].str(), e); own(p); alias.back()=true; r=J(mps->add(p));
    } else if(f=="readd") r=J(mps->add(P()));
    else if(f=="unreg") r=J(mps->unregister(P()));
    else if(f=="rename") r=J(mps->rename(o["n"].str(),o["to"].str()));
    else if(f=="setval"){ if(o["x"].num()%2) P()->setCurrentFitVal(N("x")); else if(o["x"].num()%4) P()->setVal(N("x")); else *P()->vp()=N("x"); }
    else if(f=="setinit"){ if(o["s"].num()==-1) P()->setInit(N("x")); else P()->setInit(N("x"),N("s")); }
    else if(f=="setstep") P()->setStepInit(N("x"));
    else if(f=="scale") P()->scaleStep(N("x"));
    else if(f=="limits") P()->setLimits(N("lo"),N("hi"));
    else if(f=="result") P()->setResult(N("x"),N("e"),N("en"),N("ep"));
    else if(f=="fix") P()->fix();
    else if(f=="free") P()->setFree();
    else if(f=="reset1") P()->resetToInit();
    else if(f=="reset") mps->resetToInit();
    else if(f=="setfrom"){ MinuitParameterSet other; for(size_t k=0;k<o["names"].size();++k) other.add(o["names"][k].str(),Flag::Free,double(o["xs"][k].num()),1); mps->set(other); }
    else if(f=="mapping"){ std::vector<unsigned> m; for(auto& x: o["pos"].a) m.push_back(x.i); mps->setMapping(m); }
    else if(f=="minuit"){ std::vector<double> x; for(auto& q: o["xs"].a) x.push_back(q.i); mps->setFromMinuit(x.data()); }
    else if(f=="state"){ std::vector<double> x; for(auto& q: o["xs"].a) x.push_back(q.i); for(auto p: objs) if(p->index()<(int)x.size()) p->setFromMinuitState(x.data()); }
    else if(f=="index"){ mps->setFromMinuitIndex(o["pos"].num(),N("x")); if(mps->getFromMinuitIndex(o["pos"].num())!=N("x")) r=J(false); }
    else if(f=="print"){ r=J::mkarr();
      for(auto p: *mps){
        auto one=[&]{ std::ostringstream os; os<<*p; return os.str(); };
        auto all=[&]{ std::ostringstream os; mps->print(os); return os.str(); };
        auto var=[&]{ std::ostringstream os; mps->printVariable(os); return os.str(); };
        bool al=alias[id(p)-1];
        std::string s1=one(), a1=all(), v1=var(); double v=*p->vp(); p->setCurrentFitVal(v+123); std::string s2=one(), a2=all(), v2=var(); p->setCurrentFitVal(v);
        bool vis = s1!=s2;
        if(a1.find(s1)==std::string::npos) r.push("print misses "+p->name());
        // nothing that is printed without going through an alias may move with a hidden value
        bool anyalias=false; for(bool b: alias) anyalias|=b;
        if(!anyalias && ((a1!=a2)!=vis || ((v1!=v2)&&!vis))) r.push("listing disagrees for "+p->name());
        if(s1.find(p->name())==std::string::npos) r.push("no name "+p->name());
        (void)al; r.push(J::list({vis, v1.find(s1)!=std::string::npos}));
      } }
    else throw std::logic_error("vjson op "+f);
    return obs(r);
  }
};
std::unique_ptr<World> makeWorld(){ return std::unique_ptr<World>(new W); }
