property = "P28"
needs = "the CutKK form of the f0(980) line shape, evaluated between the two thresholds of its kaon pairs"
breaks = "the neutral kaon channel of the cut Flatte shape opens at the charged threshold, so the width is wrong between them"
edits = [("src/Lineshapes/Flatte.cpp", "aSqrtTerm(s, mK0)", "aSqrtTerm(s, mKPlus)")]
demo = r'''#include "AmpGen/Lineshapes.h"
#include "AmpGen/Expression.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
#include <iostream>
#include <cmath>
using namespace AmpGen;
int main(){
  double mk=ParticlePropertiesList::get("K+")->mass(), m0=ParticlePropertiesList::get("K0")->mass(), mp=ParticlePropertiesList::get("pi+")->mass(), mz=ParticlePropertiesList::get("pi0")->mass();
  double m=ParticlePropertiesList::get("f(0)(980)0")->mass(), s=2*(mk*mk+m0*m0);
  auto f=[&](double x){ double a=1-4*x*x/s; return a>0?std::sqrt(a):0.; };
  complex_t w = 0.165*( f(mz)/3 + 2*f(mp)/3 + 4.21*0.5*(f(mk)+f(m0)) );
  complex_t want = 1./( m*m - s - complex_t(0,1)*m*w );
  complex_t got = Lineshape::Factory::get("Flatte.CutKK", Constant(s), Constant(0.0195), Constant(0.0195), "f(0)(980)0", 0)();
  if( std::abs(got-want) > 1e-8*std::abs(want) ){ std::cout << got << " instead of " << want << "\n"; return 1; }
  return 0;
}
'''
