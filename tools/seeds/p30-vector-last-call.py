property = "P30"
needs = "a function of the parameters that keeps what it has computed (as the amplitude models do)"
breaks = "after the errors of several functions at once the function is left at the last variation instead of the central values"
stub = True
extra = ["src/ErrorPropagator.cpp"]
edits = [("src/ErrorPropagator.cpp", "  fcn();\n  std::vector<double> rt( RANK, 0 );", "  std::vector<double> rt( RANK, 0 );")]
demo = r'''#include "AmpGen/ErrorPropagator.h"
#include "AmpGen/MinuitParameterSet.h"
#include <iostream>
using namespace AmpGen;
int main(){
  MinuitParameterSet mps; auto* a=mps.add("a",Flag::Free,1,3); double cached=0;
  LinearErrorPropagator p(mps);
  p.getVectorError([&]{ cached=a->mean(); return std::vector<double>{cached}; },1);
  if( cached != 1 ){ std::cout << "the function was last evaluated at " << cached << "\n"; return 1; }
  return 0;
}
'''
