#include "driver.h"
#include "AmpGen/AmplitudeRules.h"
#include "AmpGen/Particle.h"
#include "AmpGen/EventType.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/OptionsParser.h"
#include <cmath>
using namespace AmpGen;
int verif_chunk=200;
static J whole(complex_t z){ J r=J::mkarr(); for(double x: {z.real(),z.imag()}){ double k=std::round(x); if(std::fabs(x-k)<1e-8*std::max(1.,std::fabs(x))) r.push(J((long long)k)); else r.push(J(std::to_string(x))); } return r; }
// the value of an expression of the parameters of a set
static std::string bare(const std::string& s){ auto a=s.find_first_not_of(' '),b=s.find_last_not_of(' '); return s.substr(a,b-a+1); }
static complex_t value(const Expression& e,const std::map<std::string,double>& v){
  auto at=[&](const std::string& n){ auto it=v.find(bare(n)); if(it==v.end()) throw std::runtime_error("no parameter "+n); return it->second; };
  if(is<Parameter>(e)) return at(cast<Parameter>(e).name());
  if(is<ComplexParameter>(e)){ std::string t=cast<ComplexParameter>(e).to_string(); auto a=t.find('('),b=t.find(", ",a),c=t.rfind(')'); return complex_t(at(t.substr(a+1,b-a-1)),at(t.substr(b+1,c-b-1))); }
  auto bi=dynamic_cast<const IBinaryExpression*>(e.get()); auto un=dynamic_cast<const IUnaryExpression*>(e.get());
  if(bi){ auto l=value(bi->l(),v), r=value(bi->r(),v); if(is<Sum>(e)) return l+r; if(is<Sub>(e)) return l-r; if(is<Product>(e)) return l*r; if(is<Divide>(e)) return l/r; }
  if(un){ auto x=value(un->arg(),v); if(is<Exp>(e)) return std::exp(x); if(is<Cos>(e)) return std::cos(x); if(is<Sin>(e)) return std::sin(x); if(is<Conj>(e)) return std::conj(x); }
  if(is<SubTree>(e)) return value(cast<SubTree>(e).m_expression,v);
  return e(); }
struct W: World { 
  J apply(const J& op) override { bool polar=op["polar"].b, deg=op["deg"].b; 
    OptionsParser::setArg(std::string("CouplingConstant::Coordinates ")+(polar?"polar":"cartesian")); OptionsParser::setArg(std::string("CouplingConstant::AngularUnits ")+(deg?"deg":"rad"));
    MinuitParameterSet mps; std::vector<std::pair<MinuitParameter*,MinuitParameter*>> at; auto ang=[&](double x){ return polar&&!deg?x*M_PI/180:x; };
    for(auto& e: op["ps"].a){ std::string k=e["k"].str(), n=e["n"].str(); MinuitParameter *a=nullptr,*b=nullptr;
      if(k=="p") a=mps.add(n,Flag::Free,e["re"].num(),0.1,0,0);
      if(k=="a"){ mps.add(new MinuitExpression({n,"=",std::to_string(e["m"].num()),"*",e["x"].str()},&mps)); }
      if(k=="c"||k=="r"){ std::string p=e["pre"].str(); if(p!="") p+="_"; a=mps.add(p+n+"_Re",k=="c"&&e["fr"].b?Flag::Fix:Flag::Free,e["re"].num(),0.1,0,0); if(k=="c") b=mps.add(p+n+"_Im",e["fi"].b?Flag::Fix:Flag::Free,ang(e["im"].num()),0.1,0,0); }
      at.push_back({a,b}); }
    AmplitudeRules rules(mps); for(auto& e: op["ps"].a) if(e["k"].str()=="d"&&Particle::isValidDecayDescriptor(e["n"].str())) rules.add_rule(Particle(e["n"].str()),e["re"].num()); std::vector<std::string> t={op["mother"].str()}; for(auto& x: op["fs"].a) t.push_back(x.str());
    J hs=J::mkarr(); for(auto& [h,v]: rules.rules()){ J l=J::mkarr(); for(auto& c: v) l.push(J(c.name())); if(!rules.hasDecay(h)||rules.rulesForDecay(h).size()!=v.size()) l.push(J("lookup")); J k=J::mkarr(); for(auto& c: rules.rulesForDecay(h,"A")) k.push(J(c.name())); hs.push(J::list({J(h),l,k})); }
    if(rules.hasDecay("nothing")||rules.rulesForDecay("nothing").size()) hs.push(J("rules for nothing"));
    auto m=rules.getMatchingRules(EventType(t),op["pre"].str()); std::sort(m.begin(),m.end(),[](auto& a,auto& b){ return a.first.decayDescriptor()<b.first.decayDescriptor(); });
    J l=J::mkarr(),l2=J::mkarr(); for(auto& [p,c]: m) l.push(J::list({J(p.decayDescriptor()),whole(c()),J(c.isFixed()),J((int)c.size()),J(c.contains("rho(770)0")),J(c.contains("LASS"))}));
    for(auto& x: op["ch"].a){ auto& q=at[x.a[0].num()-1]; if(q.first) q.first->setCurrentFitVal(x.a[1].num()); if(q.second) q.second->setCurrentFitVal(ang(x.a[2].num())); }
    std::map<std::string,double> v; for(auto& q: mps) v[q->name()]=q->mean();
    for(auto& [p,c]: m){ l2.push(whole(c())); auto z=value(c.to_expression(),v); if(std::abs(z-c())>1e-8*std::max(1.,std::abs(z))) l2.push(J::list({J("expression"),whole(z)})); }
    return J::list({hs,l,l2}); } };
std::unique_ptr<World> makeWorld(){ return std::make_unique<W>(); }
