// Line shapes (P28): the compiled line shape at every point and parameter setting.
#include "driver.h"
#include "AmpGen/CompiledExpression.h"
#include "AmpGen/CompilerWrapper.h"
#include "AmpGen/Expression.h"
#include "AmpGen/CoupledChannel.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/Particle.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include <cmath>
#include <unistd.h>
using namespace AmpGen;
int verif_chunk=1;
static double dbl(const J& x){ return std::stod(x.str()); }
using Fn = CompiledExpression<complex_t(const double*, const double*)>;
struct W: World {
  J apply(const J& op) override { std::string f=op["f"].str(); char b[90];
    if(f=="props"){ J out=J::mkarr(); for(auto& n: op["names"].a){ auto p=ParticlePropertiesList::get(n.str()); J r=J::mkarr(); for(double x: {p->mass(),p->width(),p->radius()}){ snprintf(b,90,"%.17g",x); r.push(J(std::string(b))); } out.push(r); } return out; }
    for(auto& o: op["opts"].a) OptionsParser::setArg(o.str());
    J out=J::mkarr(); int n=0; std::map<std::string,unsigned> em{{"s",0},{"s1",1},{"s2",2}}; Parameter s("s"),s1("s1"),s2("s2");
    for(auto& set: op["sets"].a){ ++n; MinuitParameterSet mps; for(auto& p: set["pars"].a) mps.add(p[0].str(),Flag::Free,dbl(p[1]),0.1);
      Expression e; bool real=false;
      if(f=="shape") e=Lineshape::Factory::get(op["name"].str(),s,s1,s2,op["p"].str(),unsigned(op["L"].num()));
      else { Particle pt(op["p"].str());
        if(f=="phsp"){ real=op["name"].str()=="real"; e=phaseSpace(s,pt,size_t(op["L"].num())); }
        else { static const char* c[]={"_Px","_Py","_Pz","_E"}; auto fs=pt.getFinalStateParticles(); std::vector<size_t> ord; for(size_t i=0;i<fs.size();++i){ ord.push_back(i); for(unsigned j=0;j<4;++j) em[std::to_string(i)+c[j]]=4*i+j; } pt.setOrdering(ord);
          e=Lineshape::Factory::get(op["name"].str(),pt,nullptr); } }
      Fn fn(e,"shape",&mps,em); CompilerWrapper cw; cw.compile(fn,"./shape"+std::to_string(::getpid())+"_"+std::to_string(n)); fn.prepare();
      auto run=[&](const J& want,const char* tag){ for(size_t i=0;i<op["pts"].size();++i){ double x[16]; for(size_t j=0;j<op["pts"][i].size();++j) x[j]=dbl(op["pts"][i][j]); complex_t z=fn(x); if(real) z=z.real(); double re=dbl(want[i][0]),im=dbl(want[i][1]); double tol=1e-8*std::hypot(re,im)+1e-12;
        if(std::hypot(z.real()-re,z.imag()-im)<=tol) out.push(J("ok")); else { snprintf(b,90,"%s (%.10g, %.10g)",tag,z.real(),z.imag()); out.push(J(std::string(b))); } } };
      run(set["want"],"first");
      if(set["next"].size()){ for(auto& p: set["next"].a) mps[p[0].str()]->setCurrentFitVal(dbl(p[1])); fn.prepare(); run(set["want2"],"changed"); } }
    return out; } };
std::unique_ptr<World> makeWorld(){ return std::make_unique<W>(); }
