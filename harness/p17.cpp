// Event records, lists, vectorised lists, caches and event types (P17).
#include "driver.h"
#include "AmpGen/EventList.h"
#include "AmpGen/EventListSIMD.h"
#include "AmpGen/EventType.h"
#include "AmpGen/Event.h"
#include "AmpGen/Store.h"
#include <algorithm>
using namespace AmpGen;
int verif_chunk=100;
static const unsigned NP=3;
static double fre(int f,int c,const double* d){ return f*d[c-1]+d[4]; }
static double fim(int f,int c,const double* d){ return f==4?0.:d[c]-c; }
static int comps(int f){ return f==1||f==4?1:f==2?3:2; }
static real_v vre(int f,int c,const real_v* d){ return real_v(double(f))*d[c-1]+d[4]; }
static real_v vim(int f,int c,const real_v* d){ return f==4?real_v(0.):real_v(d[c]-real_v(double(c))); }
// functions writing their components to given places, over scalar and vectorised input
template<class C,class R> struct Multi {
  using return_type=void; int f; explicit Multi(int f):f(f){} std::string name() const { return "f"+std::to_string(f); }
  unsigned returnTypeSize() const { return comps(f)*sizeof(C); } std::vector<double> externBuffer() const { return {0.}; }
  void operator()(C* r,const size_t* s,const double*,const R* x) const { for(int c=1;c<=comps(f);++c){ if constexpr(std::is_same<R,double>::value) r[s[c-1]]=C(fre(f,c,x),fim(f,c,x)); else r[s[c-1]]=C(vre(f,c,x),vim(f,c,x)); } }
  void batch(size_t N,size_t eventSize,size_t cacheSize,void*,C* r,const size_t* s,const double* e,const R* x) const { for(size_t i=0;i<N;++i) (*this)(r+cacheSize*i,s,e,x+i*eventSize); }
};
// a function returning its single component
template<class C,class R> struct Single {
  using return_type=C; int f; explicit Single(int f):f(f){} std::string name() const { return "f"+std::to_string(f); }
  unsigned returnTypeSize() const { return sizeof(C); } std::vector<double> externBuffer() const { return {0.}; }
  C operator()(const R* x) const { if constexpr(std::is_same<R,double>::value) return C(fre(f,1,x),fim(f,1,x)); else return C(vre(f,1,x),vim(f,1,x)); }
  void batch(size_t N,size_t eventSize,size_t cacheSize,C* r,const double*,const R* x) const { for(size_t i=0;i<N;++i) r[cacheSize*i]=(*this)(x+i*eventSize); }
};
struct ICache { virtual ~ICache()=default; virtual void alloc(const void*,int)=0; virtual void update(int)=0; virtual J read(int)=0; };
template<class L,class C,class R,Alignment A> struct Cache : ICache {
  FunctionCache<L,C,A> c; const L* in=nullptr;
  void alloc(const void* l,int n) override { in=(const L*)l; std::vector<Multi<C,R>> m; for(int f=1;f<=std::min(n,3);++f) m.emplace_back(f); c.allocate(in,m); if(n==4) c.allocate(in,Single<C,R>(4)); }
  void update(int f) override { if(f==4) c.update(Single<C,R>(4)); else c.update(Multi<C,R>(f)); }
  J read(int f) override { J r=J::mkarr(); auto idx=c.find("f"+std::to_string(f)); if(int(idx.size())!=comps(f)) return J("components");
    for(size_t i=0;i<in->size();++i){ J e=J::mkarr(); for(int k=0;k<comps(f);++k){ auto z=c.template get<complex_t>(i,idx[k]); e.push(J::list({num(z.real()),num(z.imag())})); } r.push(e); } return r; }
};
struct W : World {
  EventType type{{"D0","K+","pi-","pi0"}}; EventList A{type}, B{type}; EventListSIMD S{type}; std::map<std::string,std::unique_ptr<ICache>> caches; ICache* c=nullptr;
  EventList& L(const J& o,const char* k="l"){ return o[k].str()=="A"?A:B; }
  static std::vector<double> vec(const J& a){ std::vector<double> r; for(auto& x: a.a) r.push_back(x.num()); return r; }
  static Event ev(const J& e){ auto d=vec(e["d"]); Event x(d.data(),d.size()); x.setWeight(e["w"].num()/4.); x.setGenPdf(e["g"].num()); return x; }
  static J show(const Event& e){ J d=J::mkarr(); for(unsigned i=0;i<e.size();++i) d.push(num(e[i])); return J::list({d,num(4*e.weight()),num(e.genPdf()),e.index()}); }
  J apply(const J& o) override {
    const std::string& f=o["f"].str(); J none=J::mkarr(); auto E=[&]()->Event&{ return L(o)[o["i"].num()]; };
    if(f=="push"){ L(o).push_back(ev(o["e"])); return none; }
    if(f=="emplace"){ L(o).emplace_back(ev(o["e"])); return none; }
    if(f=="fill"){ L(o).reserve(L(o).size()+o["es"].size()); for(auto& e: o["es"].a) L(o).push_back(ev(e)); return none; }
    if(f=="add"){ L(o).add(L(o,"m")); return none; }
    if(f=="copy"){ L(o,"m")=L(o); return none; }
    if(f=="erase"){ auto& l=L(o); l.erase(l.begin()+o["i"].num(),l.begin()+o["j"].num()); return none; }
    if(f=="filter"){ double t=o["t"].num()/4.; L(o).filter([t](const Event& e){ return e.weight()<t; }); return none; }
    if(f=="clear"){ L(o).clear(); return none; }
    if(f=="resize"){ L(o).resize(o["n"].num()); return none; }
    if(f=="setw"){ L(o).setWeight(o["i"].num(),o["w"].num()/4.,o["g"].num()); return none; }
    if(f=="setw1"){ L(o).setWeight(o["i"].num(),o["w"].num()/4.); return none; }
    if(f=="setg"){ L(o).setGenPDF(o["i"].num(),o["g"].num()); return none; }
    if(f=="scale"){ double k=o["k"].num(); L(o).transform([k](Event& e){ e.setWeight(k*e.weight()); e[0]+=k; }); return none; }
    if(f=="swap"){ E().swap(o["a"].num(),o["b"].num()); return none; }
    if(f=="reorder"){ std::vector<unsigned> p; for(auto& x: o["p"].a) p.push_back(x.num()); E().reorder(p); return none; }
    if(f=="setp"){ auto q=vec(o["q"]); if(o["a"].num()%2) E().set(o["a"].num(),q); else E().set(o["a"].num(),q.data()); return none; }
    if(f=="setx"){ E().set(unsigned(o["k"].num()),double(o["x"].num())); return none; }
    if(f=="setall"){ auto d=vec(o["d"]); E().set(d.data()); return none; }
    if(f=="dump"){ J r=J::mkarr(); auto& l=L(o); size_t i=0; for(auto& e: l){ if(l.at(i).address()!=e.address()||l.weight(i)!=e.weight()||l.genPDF(i)!=e.genPdf()||l.getEvent(i)!=e.address()) return J("lookup"); ++i; r.push(show(e)); } return r; }
    if(f=="sums"){ auto& l=L(o); return J::list({num(l.size()),num(4*l.integral()),num(l.count([](const Event& e){ return e.weight()>=0.75; }))}); }
    if(f=="inv"){ std::vector<unsigned> b; for(auto& x: o["sub"].a) b.push_back(x.num()); const Event& e=E(); J r=J::mkarr(); if(b.size()==1) r.push(num(e.s(b[0]))); if(b.size()==2) r.push(num(e.s(b[0],b[1]))); if(b.size()==3) r.push(num(e.s(b[0],b[1],b[2]))); r.push(num(e.s(b))); return r; }
    if(f=="tosimd"){ S=EventListSIMD(L(o)); return none; }
    if(f=="sdump"){ J a=J::mkarr(), b=J::mkarr(); for(size_t i=0;i<S.size();++i) a.push(show(S.at(i))); const EventListSIMD& c=S; if(S.size()!=0) for(const auto e: c) b.push(show(e)); return J::list({a,b}); }
    if(f=="ssum"){ real_v w(0.),g(0.); for(size_t b=0;b<S.nBlocks();++b){ w+=S.weight(b); g+=S.weight(b)/S.genPDF(b); } return J::list({num(S.size()),num(4*utils::sum_elements(w)),num(32*utils::sum_elements(g))}); }
    if(f=="ssetw"||f=="ssetg"){ auto g=vec(o["gs"]); if(f=="ssetg") S.setGenPDF(o["b"].num(),real_v(g.data())); else { auto w=vec(o["ws"]); for(auto& x: w) x/=4.; S.setWeight(o["b"].num(),real_v(w.data()),real_v(g.data())); } return none; }
    if(f=="sscale"){ double k=o["k"].num(); if(S.size()!=0) S.transform([k](Event& e){ e.setWeight(k*e.weight()); e[0]+=k; }); return none; }
    if(f=="sfirst"){ long n=o["n"].num(),k=0; for(auto& e: S){ e.setWeight(e.weight()+0.25); e[0]+=5; if(++k==n) break; } return none; }
    if(f=="sclear"){ S.clear(); return none; }
    if(f=="sresize"){ S.resize(o["n"].num()); for(size_t b=0;b<S.nBlocks();++b){ auto es=S.scatter(b*real_v::size); for(unsigned k=0;k<real_v::size;++k){ for(unsigned i=0;i<S.eventSize();++i) es[k][i]=0.; if(b*real_v::size+k>=S.size()) es[k].setWeight(0); } S.gather(es,b); } return none; }
    if(f=="calloc"){ std::string key=o["l"].str()+o["al"].str(); bool aos=o["al"].str()=="AoS"; auto& p=caches[key];
      const void* in=&S; if(o["l"].str()=="A") in=&A; if(o["l"].str()=="B") in=&B;
      if(!p||o["n"].num()<cn[key]){ if(o["l"].str()=="S") p.reset(aos?(ICache*)new Cache<EventListSIMD,complex_v,real_v,Alignment::AoS>:new Cache<EventListSIMD,complex_v,real_v,Alignment::SoA>); else p.reset(aos?(ICache*)new Cache<EventList,complex_t,double,Alignment::AoS>:new Cache<EventList,complex_t,double,Alignment::SoA>); }
      cn[key]=o["n"].num(); p->alloc(in,o["n"].num()); c=p.get(); return none; }
    if(f=="cupdate"){ c->update(o["k"].num()); return none; }
    if(f=="cread") return c->read(o["k"].num());
    // event types
    auto names=[&](const char* h,const char* fs){ std::vector<std::string> n{o[h].str()}; for(auto& x: o[fs].a) n.push_back(x.str()); return n; };
    if(f=="info"){ EventType t(names("h","fs"),o["td"].boolean()); for(auto& x: o["ext"].a) t.extendEventType(x.str());
      auto fmt=[&](bool out){ std::vector<std::pair<unsigned,std::string>> v; for(auto& p: t.getEventFormat(out)) v.emplace_back(p.second,p.first); std::sort(v.begin(),v.end()); J r=J::mkarr(); for(auto& p: v) r.push(J::list({p.second,p.first})); return r; };
      J fs=J::mkarr(),cnt=J::mkarr(),anti=J::mkarr(); for(unsigned i=0;i<t.size();++i){ fs.push(t[i]); auto k=t.count(i); cnt.push(J::list({k.first,k.second})); if(!t.has(t[i])||t.finalStates()[i]!=t[i]) return J("names"); }
      auto cj=t.conj(); for(auto& x: cj.finalStates()) anti.push(x); if(!(t.conj(true).finalStates()==t.finalStates()&&t.conj(true).mother()==cj.mother()&&t.conj(false,true).mother()==t.mother()&&t.conj(false,true).finalStates()==cj.finalStates()&&cj.conj()==t&&cj.isTimeDependent()==t.isTimeDependent())) return J("conj");
      return J::list({t.mother(),fs,t.size(),t.eventSize(),int(t.dof()),J::list({t.dim().first,t.dim().second}),cnt,fmt(false),fmt(true),anti,cj.mother()}); }
    auto labelled=[&](unsigned n){ Event e(4*n); for(unsigned i=0;i<n;++i) for(unsigned k=0;k<4;++k) e[4*i+k]=10*(i+1)+k; return e; };
    auto labels=[&](const Event& e){ J r=J::mkarr(); for(unsigned i=0;i<e.size()/4;++i){ int v=e[4*i]/10; for(unsigned k=0;k<4;++k) if(e[4*i+k]!=10*v+k) v=-1; r.push(v); } return r; };
    if(f=="order"){ EventType t(names("h","fs")); std::vector<int> ids; for(auto& x: o["ids"].a) ids.push_back(x.num()); Event e=labelled(t.size()); bool ok=t.automaticOrdering()(e,ids); return J::list({int(ok),labels(e)}); }
    if(f=="symm"){ EventType t(names("h","fs")); Event e=labelled(t.size()); auto s=t.symmetriser(); for(int i=0;i<o["n"].num();++i) s(e); J l=labels(e); std::map<std::string,std::vector<int>> m; for(unsigned i=0;i<t.size();++i) m[t[i]].push_back(l.a[i].i); for(auto& p: m){ std::sort(p.second.begin(),p.second.end()); std::reverse(p.second.begin(),p.second.end()); }
      J r=J::mkarr(); for(unsigned i=0;i<t.size();++i){ auto& v=m[t[i]]; r.push(v.back()); v.pop_back(); } return r; }
    if(f=="equal") return J::list({int(EventType(names("h","fs"))==EventType(names("h2","fs2")))});
    throw std::logic_error("vjson op "+f);
  }
  std::map<std::string,int> cn;
};
std::unique_ptr<World> makeWorld(){ return std::unique_ptr<World>(new W); }
