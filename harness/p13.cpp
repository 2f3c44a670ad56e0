#include "driver.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/QuarkContent.h"
#include "AmpGen/OptionsParser.h"
#include <fstream>
#include <set>
#include <unistd.h>
#include <sys/stat.h>
using namespace AmpGen;
int verif_chunk=1;
static std::string dec(double x){ if(x==0) return "0"; char b[64]; snprintf(b,64,"%.11e",x); std::string s=b; std::string r; if(s[0]=='-'){ r="-"; s=s.substr(1); }
  auto e=s.find('e'); int ex=atoi(s.c_str()+e+1)+1; std::string d=s.substr(0,1)+s.substr(2,e-2); while(!d.empty()&&d.back()=='0') d.pop_back(); return r+d+"e"+std::to_string(ex); }
static J qs(const QuarkContent& q){ std::set<int> c; for(size_t i=0;i<q.size();++i){ int x=0; for(int k=0;k<6;++k) x=x*21+q[i][k]; c.insert(x);} J r=J::mkarr(); for(int x: c) r.push(J(x)); return r; }
static J show(const ParticleProperties& p){ return J::list({J(p.name()),J(p.pdgID()),J(p.charge()),J(p.twoSpin()),J(p.J()),J(p.P()),J(p.C()),J(p.G()),J(p.hasDistinctAnti()),J(p.isFermion()),qs(p.quarkContent()),J(dec(p.mass())),J(dec(p.width()))}); }
static J ask(const J& op){ auto L=ParticlePropertiesList::getMe(); J n=J::mkarr(), i=J::mkarr();
  for(auto& x: op["names"].a){ auto p=ParticlePropertiesList::get(x.str(),true); if(ParticleProperties::get(x.str(),true)!=p || L->find(x.str(),true)!=p) { n.push(J("routes disagree")); continue; } if(!p) n.push(J("unknown")); else { auto a=p->anti(); auto b=a; b.antiThis(); n.push(J::list({show(*p),show(a),show(b)})); } }
  for(auto& x: op["ids"].a){ auto p=ParticlePropertiesList::get((int)x.num(),true); if(L->find((int)x.num(),true)!=p){ i.push(J("routes disagree")); continue; } i.push(p? J(p->name()):J("unknown")); }
  return J::list({n,i,J::list({L->getParticleNames().size(),L->getParticleIds().size()})}); }
static void write(const std::string& f,const J& rows){ std::ofstream o(f); for(auto& l: rows.a) o<<l.str()<<"\n"; }
struct W: World { int k=0; std::string dir;
  W(){ char t[]="/tmp/p13.XXXXXX"; dir=mkdtemp(t); OptionsParser::getMe()->setQuiet(); }
  ~W(){ for(auto f: {"/mass_width.csv","/MintDalitzSpecialParticles.csv","/pdgID_to_latex.dat","/imp.csv"}) ::unlink((dir+f).c_str()); ::rmdir(dir.c_str()); }
  J apply(const J& op) override { std::string f=op["f"].str();
    if(f=="load"){ write(dir+"/mass_width.csv",op["rows"]); { std::ofstream a(dir+"/MintDalitzSpecialParticles.csv"), b(dir+"/pdgID_to_latex.dat"); } setenv("AMPGENROOT",dir.c_str(),1); return ask(op); }
    if(f=="import"){ write(dir+"/imp.csv",op["rows"]); OptionsParser::setArg("ParticlePropertiesList::Import "+dir+"/imp.csv"); return ask(op); }
    if(f=="alias"){ OptionsParser::setArg("ParticlePropertiesList::Alias "+op["name"].str()+" "+op["alias"].str()); return ask(op); }
    if(f=="add"){ std::string t="ParticleProperties "+op["name"].str(); for(auto& x: op["props"].a) t+=" "+x.str(); OptionsParser::setArg(t); return ask(op); }
    if(f=="ask") return ask(op);
    if(f=="quarks"){ QuarkContent a(op["head"].str()), s; for(auto& x: op["parts"].a) s+=QuarkContent(x.str()); auto n=a; n.antiThis(); return J::list({qs(a),qs(n),qs(s),J(a==s),J(a!=s),qs(a-s)}); }
    throw std::logic_error("vjson op"); } };
std::unique_ptr<World> makeWorld(){ return std::make_unique<W>(); }
