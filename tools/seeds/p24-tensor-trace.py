property = "P24"
needs = "a tensor meson decaying to a tensor and a scalar in S wave, where the tensor's spin tensor is not transverse to the mother's momentum"
breaks = "the trace taken out is that of the metric, so that the coupling has a scalar part (it is not left unchanged by the spin-2 projector)"
edits = [("src/Vertex.cpp", "Tensor term2 = S * ( dot( V1, S ) ) / 3.;", "Tensor term2 = S * ( dot( V1, Metric4x4() ) ) / 3.;")]
demo = r'''#include "AmpGen/Vertex.h"
#include "AmpGen/Tensor.h"
#include "AmpGen/Expression.h"
#include <iostream>
using namespace AmpGen;
int main(){
  Tensor P( std::vector<double>{1,2,-1,5}, Tensor::dim(4) ), Q( std::vector<double>{2,0,1,1}, Tensor::dim(4) );
  std::vector<double> v(16); for(int i=0;i<4;++i) for(int j=0;j<4;++j) v[4*i+j] = (i+1)*(j+1) + (i==j ? i : 0);
  Tensor V( v, Tensor::dim(4,4) ), one( std::vector<double>{1}, Tensor::dim(1) );
  Tensor T = Vertex::Factory::getSpinFactor(P,Q,V,one,"T_TS_S",nullptr);
  double g[4]={-1,-1,-1,1}; double trace=0; for(unsigned i=0;i<4;++i) trace += g[i]*std::real( T[{i,i}]() );
  if( std::abs(trace) > 1e-9 ){ std::cout << "trace of a spin-2 coupling: " << trace << "\n"; return 1; }
  return 0;
}
'''
