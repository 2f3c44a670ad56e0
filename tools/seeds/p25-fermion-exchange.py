property = "P25"
needs = "a decay with identical fermions in the final state, exchanged"
breaks = "the exchanged amplitude of identical fermions is added, not subtracted"
edits = [("src/Particle.cpp", "if(sumAmplitudes) total = total + exchangeParity.second * ls;", "if(sumAmplitudes) total = total + ls;")]
demo = r'''#include "AmpGen/Particle.h"
#include "AmpGen/Expression.h"
#include "AmpGen/CompiledExpression.h"
#include "AmpGen/CompilerWrapper.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include <iostream>
#include <cmath>
using namespace AmpGen;
int main(){
  std::vector<std::string> fs{"p+","pbar-","p+","pbar-"}; Particle p("B0{J/psi0{p+,pbar-},phi(1020)0{p+,pbar-}}", fs);
  std::map<std::string,unsigned> m; const char* c[]={"_Px","_Py","_Pz","_E"}; for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j) m[std::to_string(i)+c[j]]=4*i+j;
  CompiledExpression<complex_t(const double*, const double*)> f( p.getExpression(nullptr,{0,1,1,1,1}), "f", m );
  CompilerWrapper().compile(f); f.prepare();
  double M=ParticlePropertiesList::get("p+")->mass(), q[4][3]={{0.1,0.2,0.3},{-0.3,0.1,0.2},{0.4,-0.2,-0.1},{-0.2,-0.1,-0.4}}, x[16], y[16];
  for(int i=0;i<4;++i){ double e=M*M; for(int j=0;j<3;++j){ x[4*i+j]=q[i][j]; e+=q[i][j]*q[i][j]; } x[4*i+3]=std::sqrt(e); }
  for(int i=0;i<4;++i) for(int j=0;j<4;++j) y[4*i+j]=x[4*(i==0?2:i==2?0:i)+j];
  complex_t a=f(x), b=f(y);
  if( !( std::abs(a+b) < 1e-9*std::abs(a) ) ){ std::cout << "exchange of two protons: " << a << " -> " << b << "\n"; return 1; }
  return 0;
}
'''
