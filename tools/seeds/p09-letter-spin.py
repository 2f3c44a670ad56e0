property = "P09"
needs = "a two-letter modifier whose second letter is a spin-configuration letter"
breaks = "the orbital momentum of such a modifier is ignored, so different decays compare equal and the descriptor is not what was written"
edits = [("src/Particle.cpp", """    parseModifier( mod.substr(0,1) );
    parseModifier( mod.substr(1,1) );""", """    parseModifier( mod.substr(1,1) );
    if( m_spinConfigurationNumber < 10 ) parseModifier( mod.substr(0,1) );""")]
demo = r'''#include "AmpGen/Particle.h"
#include <iostream>
int main(){
  AmpGen::Particle p("Lambda(c)+[Pa]{Delta(1232)++,K-}"), q("Lambda(c)+[Db]{K-,Delta(1232)++}"), n("Lambda(c)+[P2]{Delta(1232)++,K-}");
  std::cout << p.decayDescriptor() << " " << q.decayDescriptor() << " " << p.L() << " " << q.L() << "\n";
  if( n.L() != 1 || n.S() != 2 ) return 2;
  return p.L() == 1 && q.L() == 2 ? 0 : 1;
}
'''
