property = "P22"
needs = "the running width below the threshold of the decay"
breaks = "the width of a resonance below threshold is not zero but rises again"
edits = [("src/Lineshapes.cpp", "const Expression q2  = Ternary( q2v > 0, q2v, 0 );", "const Expression q2  = abs( q2v );")]
demo = r'''#include "AmpGen/Lineshapes.h"
#include "AmpGen/Expression.h"
#include <iostream>
using namespace AmpGen;
int main(){
  double below = std::real( width( Constant(0.05), Constant(0.02), Constant(0.02), Constant(0.77), Constant(0.15), Constant(3), 1 )() );
  if( below != 0 ){ std::cout << "width below threshold: " << below << "\n"; return 1; }
  return 0;
}
'''
