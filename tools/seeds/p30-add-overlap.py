property = "P30"
needs = "two propagators that share a parameter and are added"
breaks = "the covariance of shared parameters is that of the second propagator rather than the sum"
stub = True
extra = ["src/ErrorPropagator.cpp"]
edits = [("src/ErrorPropagator.cpp", "m_cov( xp, yp ) = m_cov( xp, yp ) + p2_cov( x, y );", "m_cov( xp, yp ) = p2_cov( x, y );")]
demo = r'''#include "AmpGen/ErrorPropagator.h"
#include "AmpGen/MinuitParameterSet.h"
#include <iostream>
#include <cmath>
using namespace AmpGen;
int main(){
  MinuitParameterSet mps; auto* a=mps.add("a",Flag::Free,1,3); auto* b=mps.add("b",Flag::Free,2,1);
  LinearErrorPropagator p(std::vector<MinuitParameter*>{a}), q(std::vector<MinuitParameter*>{b,a}); p.add(q);
  double e=p.getError([&]{ return a->mean(); });
  if( std::abs(e*e-18) > 1e-9 ){ std::cout << "variance " << e*e << " rather than 9+9\n"; return 1; }
  return 0;
}
'''
