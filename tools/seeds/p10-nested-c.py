property = "P10"
needs = "an amplitude whose decay has a C-odd state below an intermediate that has a definite C itself"
breaks = "the sign of the coupling of the added CP conjugate ignores the C parity of states below such intermediates"
edits = [("src/Particle.cpp", "prod *= ( d->props()->C() == 0 ? 1 : d->props()->C() ) * d->C();", "prod *= d->props()->C() == 0 ? d->C() : d->props()->C();")]
demo = r'''#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include <iostream>
int main(){
  AmpGen::Particle p("D0{rho(770)0{pi+,pi-},gamma0}"), q("B0{J/psi0{rho(770)0{pi+,pi-},pi0},K0S0}");
  AmpGen::Particle r("D0{rho(770)0,pi0}");
  std::cout << p.C() << " " << q.C() << " " << r.C() << "\n";
  // C(J/psi) * C(K0S0) * C(rho) * C(pi0)
  int e = 1;
  auto C = [](const char* n){ int c = AmpGen::ParticleProperties::get(n)->C(); return c == 0 ? 1 : c; };
  e = C("J/psi0") * C("K0S0") * C("rho(770)0") * C("pi0") * C("pi+") * C("pi-");
  std::cout << e << "\n";
  return q.C() == e && r.C() == C("rho(770)0") * C("pi0") ? 0 : 1;
}
'''
