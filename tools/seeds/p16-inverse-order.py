property = "P16"
needs = "the inverse of a sequence of two or more transformations that do not commute"
breaks = "the inverse applies the inverses in the original order, so a sequence followed by its inverse is not the identity"
edits = [("src/Transform.cpp", "for( auto i = m_transforms.rbegin(); i != m_transforms.rend(); ++i )", "for( auto i = m_transforms.begin(); i != m_transforms.end(); ++i )")]
demo = r'''#include "AmpGen/Transform.h"
#include "AmpGen/Tensor.h"
#include <iostream>
using namespace AmpGen;
int main(){
  Tensor x( std::vector<double>{1,0,0,0}, Tensor::dim(4) ), z( std::vector<double>{0,0,1,0}, Tensor::dim(4) ), p( std::vector<double>{1,2,3,10}, Tensor::dim(4) );
  TransformSequence s; s.push_back( Transform( Constant(0.6), x, Transform::Type::Rotate ) ); s.push_back( Transform( Constant(1.25), z, Transform::Type::Boost ) );
  Tensor q = s.inverse()( s(p) );
  for(int i=0;i<4;++i) if( std::abs( q[i]() - p[i]() ) > 1e-9 ){ std::cout << "component " << i << ": " << q[i]() << "\n"; return 1; }
  return 0;
}
'''
