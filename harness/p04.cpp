// Parameter file driver (P04).
#include "driver.h"
#include "rat.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/ParticlePropertiesList.h"
#include <fstream>
#include <unistd.h>
using namespace AmpGen;
int verif_chunk=1;
static bool once=[](){ ParticlePropertiesList::getMe(); return true; }();
struct W : World {
  std::unique_ptr<MinuitParameterSet> mps; std::string fl(Flag f){ switch(f){ case Flag::Free: return "Free"; case Flag::Hide: return "Hide"; case Flag::Fix: return "Fix"; case Flag::CompileTimeConstant: return "CompileTimeConstant"; case Flag::Blind: return "Blind"; default: return "?"; } }
  J apply(const J& o) override {
    auto& f=o["f"].str();
    if(f=="load"){ for(auto& l: o["lines"].a){ std::string s; for(auto& w: l.a) s+=(s.empty()?"":" ")+w.str(); OptionsParser::setArg(s); } mps.reset(new MinuitParameterSet()); mps->loadFromStream(); }
    else if(f=="file"){ std::string fn="pars.txt"; { std::ofstream out(fn); int n=0; for(auto& l: o["lines"].a){ std::string s; for(auto& w: l.a) s+=(s.empty()?"":(n%2?" ":"\t"))+w.str(); out<<s<<(n%3==2?"\r\n":"\n"); if(n%2) out<<"# comment Free 1 1\n\n"; ++n; } } mps.reset(new MinuitParameterSet()); mps->loadFromFile(fn); ::unlink(fn.c_str()); }
    else { auto p=mps->find(o["n"].str()); if(p) p->setCurrentFitVal(double(o["x"][0].num())/o["x"][1].num()); }
    J r=J::mkarr(); for(auto p: *mps){ if(mps->find(p->name())!=p) r.push("lookup"); r.push(J::list({p->name(),fl(p->flag()),showReal(p->mean()),showReal(p->stepInit()),showReal(p->minInit()),showReal(p->maxInit())})); }
    return r;
  }
};
std::unique_ptr<World> makeWorld(){ return std::unique_ptr<World>(new W); }
