property = "P13"
needs = "an antiparticle of a fermion with spin above one half"
breaks = "the antiparticles of baryons with spin 3/2 and above keep the parity of the particle"
edits = [("src/ParticleProperties.cpp", "if( isFermion() ) m_parity *= -1;", "if( m_twoSpin == 1 ) m_parity *= -1;")]
demo = r'''#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
#include <iostream>
#include <cstdlib>
int main(){
  auto a = AmpGen::ParticlePropertiesList::get(3224), b = AmpGen::ParticlePropertiesList::get(-3224); // Sigma(1385)+, spin 3/2
  auto p = AmpGen::ParticlePropertiesList::get(2212), q = AmpGen::ParticlePropertiesList::get(-2212);
  if( !a || !b || !p || !q ) return 2;
  if( p->P() != -q->P() || a->P() != -b->P() || a->P() == 0 ){ std::cout << "parity of antifermion not opposite\n"; return 1; }
  return 0;
}
'''
