property = "P14"
needs = "angular momenta whose factorials exceed a 32-bit integer: J + j1 + j2 + 1 above 12"
breaks = "Clebsch-Gordan coefficients of large angular momenta are wrong"
edits = [("src/Wigner.cpp", "  double f=1;\n  for( int i=1;i<=z;++i) f*=i;", "  unsigned f=1;\n  for( int i=1;i<=z;++i) f*=i;")]
demo = r'''#include "AmpGen/Wigner.h"
#include <iostream>
#include <cmath>
int main(){
  double s=0; for( double m=-4; m<=4; ++m ){ double c=AmpGen::CG(4,m,4,-m,4,0); s+=c*c; }
  if( !( std::abs(s-1) < 1e-9 ) ){ std::cout << "norm of |4 0> is " << s << "\n"; return 1; }
  return 0;
}
'''
