property = "P29"
needs = "asymmetric errors of a parameter, followed by another use of the parameters"
breaks = "the last of the varied parameters stays where the search for asymmetric errors left it"
stub = True
extra = ["src/Minimiser.cpp", "src/ExpressionParser.cpp"]
edits = [("src/Minimiser.cpp", "for( int i = 0 ; i != m_nParams; ++i ) m_parSet->at( m_mapping[i] )->setCurrentFitVal( init_values[i] );", "for( int i = 0 ; i + 1 < m_nParams; ++i ) m_parSet->at( m_mapping[i] )->setCurrentFitVal( init_values[i] );")]
demo = r'''#include "AmpGen/Minimiser.h"
#include "AmpGen/MinuitParameterSet.h"
#include <Math/Minimizer.h>
#include <iostream>
using namespace AmpGen;
int main(){
  MinuitParameterSet mps; mps.add("a",Flag::Free,1,1); mps.add("b",Flag::Free,2,1);
  std::function<double(void)> f=[&]{ return mps["a"]->mean()*mps["b"]->mean(); };
  ROOT::Math::verif_minimise()=[](ROOT::Math::Minimizer& m){ m.x={4,5}; m.err={1,1}; m.cov={1,0,0,1}; m.status=0; };
  ROOT::Math::verif_minos()=[](ROOT::Math::Minimizer& m,unsigned,double& lo,double& hi){ double x[2]={9,8}; (*m.f)(x); lo=-1; hi=2; };
  Minimiser m(f,&mps); m.doFit(); m.minos(mps["a"]);
  if( mps["a"]->mean()!=4 || mps["b"]->mean()!=5 ){ std::cout << "after the errors of a: a = " << mps["a"]->mean() << ", b = " << mps["b"]->mean() << "\n"; return 1; }
  return 0;
}
'''
