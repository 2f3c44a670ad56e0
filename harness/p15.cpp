#include "driver.h"
#include "rat.h"
#include "AmpGen/Tensor.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitParameterSet.h"
#include <cmath>
#include <map>
using namespace AmpGen;
int verif_chunk=200;
static std::vector<std::unique_ptr<MinuitParameter>> keep;
static Expression num(const J& x,bool live){ double a=x.a[0].num(),b=x.a[1].num(); if(!live) return Constant(a,b);
  keep.emplace_back(new MinuitParameter("re"+std::to_string(keep.size()),Flag::Free,a,0.1)); Expression r=MinuitParameterLink(keep.back().get());
  if(b!=0){ keep.emplace_back(new MinuitParameter("im"+std::to_string(keep.size()),Flag::Free,b,0.1)); r=r+Constant(0,1)*Expression(MinuitParameterLink(keep.back().get())); } return r; }
static std::vector<unsigned> ints(const J& x){ std::vector<unsigned> r; for(auto& y: x.a) r.push_back((unsigned)y.num()); return r; }
static Tensor mk(const J& t,bool live){ Tensor r(ints(t["d"])); unsigned k=0; for(auto& x: t["v"].a) r[k++]=num(x,live); return r; }
static J comps(const Tensor& t){ J r=J::mkarr(); for(unsigned k=0;k<t.size();++k) r.push(showC(t[k]())); return r; }
static J matrix(const Tensor& t){ J r=J::mkarr(); unsigned n=t.dims()[0]; for(unsigned i=0;i<n;++i){ J q=J::mkarr(); for(unsigned j=0;j<n;++j) q.push(showC(t[{i,j}]())); r.push(q); } return r; }
struct Labels { std::map<std::string,Tensor::Index> m; std::map<uint64_t,std::string> back; Tensor::Index at(const J& x){ auto it=m.find(x.a[0].str()); if(it==m.end()){ it=m.emplace(x.a[0].str(),Tensor::Index()).first; back[it->second.ptr()]=x.a[0].str(); } return x.a[1].b? -it->second : it->second; } std::vector<Tensor::Index> all(const J& q){ std::vector<Tensor::Index> r; for(auto& x: q.a) r.push_back(at(x)); return r; } };
static TensorProxy ev(const J& e,const std::vector<Tensor>& ts,Labels& L,bool live){ std::string f=e.a[0].str();
  if(f=="T"){ auto q=L.all(e.a[2]); const Tensor& t=ts[(size_t)e.a[1].num()-1]; if(q.size()==1) return t(q[0]); if(q.size()==2) return t(q[0],q[1]); if(q.size()==3) return t(q[0],q[1],q[2]); if(q.size()==4) return t(q[0],q[1],q[2],q[3]); return t(q); }
  if(f=="*") return ev(e.a[1],ts,L,live)*ev(e.a[2],ts,L,live);
  if(f=="+") return ev(e.a[1],ts,L,live)+ev(e.a[2],ts,L,live);
  if(f=="-") return ev(e.a[1],ts,L,live)-ev(e.a[2],ts,L,live);
  if(f=="s") return num(e.a[1],live)*ev(e.a[2],ts,L,live);
  if(f=="r") return ev(e.a[2],ts,L,live).reorder(L.all(e.a[1]));
  throw std::logic_error("vjson expr"); }
struct W: World { Tensor t; bool live=false;
  J seen(){ J r=J::mkarr(); std::vector<unsigned> d=t.dims(); for(unsigned k=0;k<t.nElements();++k){ auto c=t.coords(k); complex_t a=t[c](),b=t[k](),g=t.get(k)(); r.push(a==b&&b==g? showC(a):J("routes disagree")); }
    return J::list({r,J((int)t.uniqueElements().size())}); }
  J apply(const J& op) override { std::string f=op["f"].str(); bool lv=op.has("live") && op["live"].b;
    if(f=="new"){ t=Tensor(ints(op["d"])); return seen(); }
    if(f=="sym"){ auto a=ints(op["at"]); if(a.size()==2) t.imposeSymmetry(a[0],a[1]); else t.imposeSymmetry(a); return seen(); }
    if(f=="set"){ t[ints(op["c"])]=num(op["x"],lv); return seen(); }
    if(f=="plus"){ std::vector<Tensor::Index> ix(t.dims().size()), jx; for(auto& p: op["p"].a) jx.push_back(ix[(size_t)p.num()-1]); Tensor o(t.dims()); unsigned k=0; for(auto& x: op["v"].a) o[k++]=num(x,lv);
      Tensor a=t(ix)+o(jx), b=o(jx)-t(ix); return J::list({comps(a),comps(b)}); }
    if(f=="inv") return matrix(t.Invert());
    if(f=="calc"){ std::vector<Tensor> ts; for(auto& x: op["ts"].a) ts.push_back(mk(x,lv)); Labels L; auto r=ev(op["e"],ts,L,lv); J ix=J::mkarr(); for(auto& i: r.indices()) ix.push(J(L.back[i.ptr()])); Tensor v=r; J d=J::mkarr(); for(auto x: v.dims()) d.push(J((int)x));
      if(v.nElements()==1){ Expression x=r; if(std::abs(x()-v[0]())>1e-9) return J("conversions disagree"); } return J::list({ix,d,comps(v)}); }
    if(f=="unary"){ Tensor x=mk(op["t"],lv); std::string u=op["u"].str(); return comps(u=="neg"? -x : u=="conj"? x.conjugate() : x); }
    if(f=="dot") return showC(dot(mk(op["a"],lv),mk(op["b"],lv))());
    if(f=="eps") return comps(LeviCivita((unsigned)op["n"].num()));
    if(f=="one") return comps(Identity((unsigned)op["n"].num()));
    if(f=="at"){ auto d=ints(op["d"]); unsigned n=1; for(auto x: d) n*=x; J r=J::mkarr(); for(unsigned k=0;k<n;++k){ auto c=Tensor::index_to_coordinates(k,d); J q=J::mkarr(); for(auto x: c) q.push(J((int)x)); r.push(J::list({q,J((int)Tensor::coordinates_to_index(c,d))})); } return r; }
    if(f=="lin"){ Tensor a=mk(op["a"],lv), b=mk(op["b"],lv); Expression x=num(op["x"],lv); double re=op["x"].a[0].num(); bool real=op["x"].a[1].num()==0; std::vector<Tensor::Index> ix(a.dims().size()); bool same=true;
      auto both=[&](const Tensor& p,const TensorProxy& q){ if(q.indices()!=ix) same=false; J u=comps(p),v=comps(q.tensor()); if(u.dump()!=v.dump()) same=false; return u; };
      J r=J::mkarr(); r.push(both(x*a,x*a(ix))); r.push(both(a*x,a(ix)*x)); r.push(both((a*x)/x,(a(ix)*x)/x)); r.push(both(a+b,a(ix)+b(ix))); r.push(both(a-b,a(ix)-b(ix)));
      if(real){ if(comps(re*a).dump()!=comps(x*a).dump()||comps(a*re).dump()!=comps(x*a).dump()||comps((a*re)/re).dump()!=comps(a).dump()) same=false; both(re*a,re*a(ix)); both(a*re,a(ix)*re); both((a*re)/re,(a(ix)*re)/re); }
      Tensor u=a; u+=b; r.push(comps(u)); Tensor v=a; v-=b; r.push(comps(v)); Tensor w=a; w.st(); if(comps(w).dump()!=comps(a).dump()) same=false; w=a; w.st(true); if(comps(w).dump()!=comps(a).dump()) same=false; if(!a.rankMatches(b)) same=false;
      r.push(J(same)); return r; }
    if(f=="match") return J(mk(op["a"],lv).rankMatches(mk(op["b"],lv)));
    if(f=="matinv") return matrix(mk(op["t"],lv).Invert());
    throw std::logic_error("vjson op"); } };
std::unique_ptr<World> makeWorld(){ keep.clear(); return std::make_unique<W>(); }
