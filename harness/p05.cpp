// Expression parser driver (P05).
#include "driver.h"
#include "rat.h"
#include "AmpGen/ExpressionParser.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/OptionsParser.h"
using namespace AmpGen;
int verif_chunk=500;
static bool once=[](){ const char* c=getenv("COORD"); if(c && std::string(c)!="cart"){ OptionsParser::setArg("CouplingConstant::Coordinates polar"); if(std::string(c)=="polardeg") OptionsParser::setArg("CouplingConstant::AngularUnits deg"); } return true; }();
struct W : World {
  MinuitParameterSet mps; std::vector<Expression> held; std::vector<std::string> names{"a","b","z_Re","z_Im","par::x"};
  W(){ bool polar=getenv("COORD") && std::string(getenv("COORD"))!="cart", deg=polar && std::string(getenv("COORD"))=="polardeg"; double v[5]={2,3,polar?2.:1.,deg?90.:polar?0.:-2.,0.5}; for(int k=0;k<5;++k) mps.add(names[k],Flag::Free,v[k],1); }
  J apply(const J& o) override {
    if(o["f"].str()=="parse"){
      std::vector<std::string> t; for(auto& x: o["toks"].a) t.push_back(x.str());
      if(o["via"].num()){ held.push_back(ExpressionParser::parse(t.begin(),t.end(),&mps)); }
      else { int n=o["sp"].num(); std::string s(n-1,' '); for(size_t k=0;k<t.size();++k){ if(k) s+=std::string(n,' '); s+=t[k]; } if(n==2) s+="  "; held.push_back(ExpressionParser::parse(s,&mps)); }
    } else { for(size_t k=0;k<names.size();++k) mps[names[k]]->setCurrentFitVal(double(o["vals"][k][0].num())/o["vals"][k][1].num()); }
    J r=J::mkarr(); for(auto& e: held) r.push(showC(e())); return r;
  }
};
std::unique_ptr<World> makeWorld(){ return std::unique_ptr<World>(new W); }
