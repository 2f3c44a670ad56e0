// Adaptive binning and chi-squared (P27).
#include "driver.h"
#include "AmpGen/BinDT.h"
#include "AmpGen/Chi2Estimator.h"
#include "AmpGen/EventList.h"
#include "AmpGen/EventListSIMD.h"
#include "AmpGen/EventType.h"
#include "AmpGen/Event.h"
#include <cmath>
#include <fstream>
#include <unistd.h>
using namespace AmpGen;
int verif_chunk=100;
static J show(double x,double n){ double y=x*n, k=std::round(y); if(std::isfinite(y)&&std::fabs(y-k)<=1e-9*std::max(1.,std::max(n,std::fabs(y)))*10&&std::fabs(y-k)<0.2) return J((long long)k); return J(std::to_string(y)); }
struct W: World { std::unique_ptr<BinDT> dt; std::string file; 
  W(){ static int n=0; file="./binning_"+std::to_string(::getpid())+"_"+std::to_string(n++)+".txt"; }
  ~W(){ ::unlink(file.c_str()); }
  static Event event(const J& e){ std::vector<double> v; for(auto& p: e.a) for(auto& x: p.a) v.push_back(x.num()); return Event(v.data(),v.size()); }
  static Event plain(const J& p){ Event e(4); for(size_t j=0;j<p.size();++j) e[j]=p.a[j].num(); return e; }
  static EventType type(size_t n){ return n==3?EventType({"D0","K-","pi+","pi0"}):EventType({"D0","K-","pi+","pi-","pi+"}); }
  J apply(const J& op) override { std::string f=op["f"].str();
    if(f=="chi2"){ EventList D(type(3)), M(type(3)); auto& a=op["evs"].a; for(size_t i=0;i<a.size();++i){ Event e=event(a[i]); e.setWeight(op["wd"].a[i].num()); D.push_back(e); }
      auto& b=op["mc"].a; for(size_t i=0;i<b.size();++i){ Event e=event(b[i]); e.setWeight(op["wm"].a[i].num()); e.setGenPdf(op["g"].a[i].num()); M.push_back(e); } EventListSIMD d(D), m(M);
      Chi2Estimator c(d,m,[](const Event& e){ return e[3]; },MinEvents(op["c"]["min"].num()),Dim(2)); return J::list({J((int)c.nBins()),show(c.chi2(),op["den"].num())}); }
    if(f=="save"){ dt->serialize(file); return J(1); }
    if(f=="load"){ dt=std::make_unique<BinDT>(File(file),Dim(dimension),Functor(functor())); return J((int)dt->size()); }
    if(f=="reload"){ std::ifstream i(file); dt->readFromStream(i); return J((int)dt->size()); }
    if(f=="label"){ for(auto& n: dt->nodes()) n->setBinNumber(((n->voxNumber()+1)*int(op["k"].num()))%3); return J(1); }
    auto& c=op["c"]; std::string kind=c["kind"].str();
    if(f=="build"){ dimension=c["dim"].num(); xy=kind=="xy"; MinEvents mn(c["min"].num()); MaxDepth mx(c["max"].num()); Dim dim(dimension); std::string how=op["how"].str(); J out=J::mkarr(); auto& a=op["evs"].a;
      if(how=="data"){ std::vector<std::vector<double>> v; std::vector<double*> p; for(auto& e: a){ v.emplace_back(); for(auto& x: e.a) v.back().push_back(x.num()); } for(auto& x: v) p.push_back(x.data());
        if(c["order"].size()==0) dt=std::make_unique<BinDT>(p,mn,mx,dim,Functor(functor()));
        else { dt=std::make_unique<BinDT>(mn,mx,dim,Functor(functor())); std::vector<unsigned> o; for(auto& x: c["order"].a) o.push_back(unsigned(x.num()-1)); dt->setQueueOrdering(o); auto t=dt->makeNodes(p); held=t; std::ofstream s(file); s<<std::setprecision(17); t->serialize(s); s<<"end"; s.close(); dt=std::make_unique<BinDT>(mn,mx,dim,Functor(functor())); std::ifstream i(file); dt->readFromStream(i); ::unlink(file.c_str()); } }
      else if(how=="functor"){ std::vector<Event> l; for(auto& e: a) l.push_back(plain(e)); dt=std::make_unique<BinDT>(l.begin(),l.end(),mn,mx,dim,Functor(functor())); }
      else { EventList l(type(a[0].size())); for(auto& e: a) l.push_back(event(e)); if(how=="list") dt=std::make_unique<BinDT>(l,mn,mx,dim); else if(how=="pack") dt=std::make_unique<BinDT>(l,ArgumentPack(mn,mx,dim)); else dt=std::make_unique<BinDT>(l.begin(),l.end(),mn,mx,dim); }
      for(auto& e: a) out.push(number(e)); return J::list({J((int)dt->size()),out}); }
    if(f=="find"){ J out=J::mkarr(); for(auto& e: op["evs"].a){ out.push(J::list({number(e),label(e)})); } return out; }
    throw std::logic_error("vjson op"); }
  int dimension=0; bool xy=true; std::shared_ptr<BinDT::INode> held;
  std::function<std::vector<real_t>(const Event&)> functor(){ if(!xy) return dimension==2?std::function<std::vector<real_t>(const Event&)>([](const Event& e){ return std::vector<real_t>{e.s(0,1),e.s(1,2)}; }):[](const Event& e){ return std::vector<real_t>{e.s(1,2,3),e.s(0,1),e.s(0,2),e.s(2,3),e.s(0,1,2)}; }; int n=dimension; return [n](const Event& e){ std::vector<real_t> r; for(int j=0;j<n;++j) r.push_back(e[j]); return r; }; }
  Event of(const J& e){ return xy?plain(e):event(e); }
  J number(const J& e){ Event x=of(e); int n=dt->getBinNumber(x); auto v=functor()(x); if((int)dt->getBinNumber(v.data())!=n) return J("differs"); return J(n); }
  J label(const J& e){ Event x=of(e); int n=dt->getBin(x); auto v=functor()(x); if((int)dt->getBin(v.data())!=n) return J("differs"); return J(n); } };
std::unique_ptr<World> makeWorld(){ return std::make_unique<W>(); }
