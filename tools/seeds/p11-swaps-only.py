property = "P11"
needs = "three or more identical particles in the final state"
breaks = "only exchanges of pairs are used: cyclic exchanges of three identical particles are left out"
edits = [("src/Particle.cpp", "    if ( isSameAsP0 ) orderings.push_back( indices );", """    size_t nMoved = 0;
    for ( size_t i = 0; i < indices.size(); ++i ) nMoved += indices[i] != i;
    if ( isSameAsP0 && nMoved % 2 == 0 ) orderings.push_back( indices );""")]
demo = r'''#include "AmpGen/Particle.h"
#include <iostream>
#include <set>
int main(){
  AmpGen::Particle p("D0{pi0,pi0}"), q("D0{f(0)(980)0{pi0,pi0},pi0}"), r("D0{rho(770)0{pi+,pi-},rho(770)0{pi+,pi-}}");
  auto n = [](const AmpGen::Particle& x){ auto o = x.identicalDaughterOrderings(); return std::set<std::vector<size_t>>(o.begin(), o.end()).size() == o.size() ? o.size() : 0; };
  std::cout << n(p) << " " << n(q) << " " << n(r) << "\n";
  return n(p) == 2 && n(q) == 6 && n(r) == 4 ? 0 : 1;
}
'''
