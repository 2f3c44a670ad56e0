property = "P26"
needs = "a rotation about an axis that is not given as a unit vector"
breaks = "the part of the momenta along the axis is scaled by the length of the axis, so lengths change"
stub = True
extra = ["src/Kinematics.cpp"]
edits = [("src/Kinematics.cpp", "iy * nz )/norm + k * nx / ( norm * norm );", "iy * nz )/norm + k * nx / norm;")]
demo = r'''#include "AmpGen/Kinematics.h"
#include "AmpGen/Event.h"
#include <iostream>
#include <cmath>
using namespace AmpGen;
int main(){
  double d[8]={1,2,3,5,-1,0,2,4}; Event e(d,8);
  rotate(e, std::tuple<double,double,double>(1,2,2), 0.7);
  for(int i=0;i<2;++i){ double a=0,b=0; for(int j=0;j<3;++j){ a+=d[4*i+j]*d[4*i+j]; b+=e[4*i+j]*e[4*i+j]; } if( std::abs(a-b) > 1e-9 ){ std::cout << "length " << a << " -> " << b << "\n"; return 1; } }
  return 0;
}
'''
