#include "driver.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/QuarkContent.h"
#include "AmpGen/Utilities.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/AddCPConjugate.h"
#include "AmpGen/OptionsParser.h"
#include <set>
#include <cmath>
using namespace AmpGen;
int verif_chunk=200;
static J see(const Particle& p){ J d=J::mkarr(); for(auto& x: p.daughters()) d.push(see(*x)); std::string n=p.name(); if(p.props()->name()!=n) n+=" / "+p.props()->name();
  return J::list({J(n),J((int)p.L()),J((int)p.S()),J(p.lineshape()),J((int)p.index()),d}); }
static bool simple(const Particle& p){ if(p.daughters().size()>2 || p.props()->twoSpin()<0) return false; for(auto& d: p.daughters()) if(!simple(*d)) return false; return true; }
static J qs(const QuarkContent& q){ std::set<int> c; for(size_t i=0;i<q.size();++i){ int x=0; for(int k=0;k<6;++k) x=x*21+q[i][k]; c.insert(x);} J r=J::mkarr(); for(int x: c) r.push(J(x)); return r; }
static std::vector<std::string> strs(const J& a){ std::vector<std::string> r; for(auto& x: a.a) r.push_back(x.str()); return r; }
struct W: World {
  J apply(const J& op) override { std::string f=op["f"].str();
    if(f=="parse"){ Particle p(op["d"].str(),strs(op["fs"])); Particle q(p.decayDescriptor()); std::string u=p.uniqueString(); if(u!=p.decayDescriptor()) u+=" / "+p.decayDescriptor();
      return J::list({J(u),see(p),J(p.isStateGood()),J(q.decayDescriptor())}); }
    if(f=="cmp"){ Particle a(op["a"].str()),b(op["b"].str()); return J::list({J(a.uniqueString()==b.uniqueString()),J((int)a.matches(b)),J((int)b.matches(a))}); }
    if(f=="conj"){ Particle p(op["d"].str()); std::string before=p.uniqueString(); Particle a=p.conj(); Particle b=a.conj(); Particle u=p.conj(true,false); std::string after=p.uniqueString();
      Particle t(op["d"].str()); t.conjThis(); std::string tn=t.decayDescriptor(); if(t.makeUniqueString()!=tn || t.name()!=t.props()->name()) tn+=" / "+t.uniqueString()+" / "+t.name();
      if(before!=after) tn+=" changed its argument";
      return J::list({J(a.decayDescriptor()),see(a),J(b.decayDescriptor()),J(u.decayDescriptor()),J(simple(p)?p.CP():0),J(tn)}); }
    if(f=="conjF"){ Particle p(op["d"].str()); return J(p.conj(false).decayDescriptor()); }
    if(f=="swap"){ Particle p(op["d"].str(),strs(op["fs"])); auto fsp=p.getFinalStateParticles(); std::vector<int> ep; for(auto& x: fsp) ep.push_back(x->props()->isFermion()?-1:1);
      J r=J::mkarr(); std::set<std::vector<size_t>> seen; auto os=p.identicalDaughterOrderings(); std::sort(os.begin(),os.end());
      for(auto& o: os){ J w=J::mkarr(); for(auto i: o) w.push(J((int)i)); r.push(J::list({w,J(minSwaps(o,ep).second)})); }
      return r; }
    if(f=="ls"){ Particle p(op["d"].str(),{},false); J r=J::mkarr(); for(bool c: {true,false}){ auto v=p.spinOrbitCouplings(c); std::sort(v.begin(),v.end()); J l=J::mkarr(); for(auto& x: v) l.push(J::list({J((int)std::lround(x.first)),J((int)std::lround(2*x.second))})); auto g=p.orbitalRange(c); r.push(J::list({l,J::list({J((int)g.first),J((int)g.second)})})); } return r; }
    if(f=="quasi") return J(Particle(op["d"].str()).quasiStableTree().decayDescriptor());
    if(f=="quarks"){ Particle p(op["d"].str()); int id=std::abs(p.props()->pdgID()); return J::list({qs(p.quarks()),qs(p.daughterQuarks()),J((p.quarks()==p.daughterQuarks()) && id!=24 && id!=23)}); }
    if(f=="cp"){ MinuitParameterSet mps; std::vector<MinuitParameter*> own; for(auto& x: op["params"].a) own.push_back(mps.add(x.a[0].str(),Flag::Free,x.a[1].num(),0.1,0,0));
      OptionsParser::setArg(std::string("CouplingConstant::Coordinates ")+(op["polar"].b?"polar":"cartesian")); std::string fb="AddCPConjugate::Forbid"; for(auto& x: op["forbid"].a) fb+=" "+x.str(); OptionsParser::setArg(fb);
      AddCPConjugate(mps); auto dump=[&]{ J r=J::mkarr(); for(auto& p: mps) r.push(J::list({J(p->name()),J((int)std::lround(p->mean()))})); return r; }; J a=dump(); for(size_t k=0;k<own.size();++k) own[k]->setCurrentFitVal(own[k]->mean()+10*(k+1)); return J::list({a,dump()}); }
    throw std::logic_error("vjson op"); } };
std::unique_ptr<World> makeWorld(){ return std::make_unique<W>(); }
