property = "P29"
needs = "a fit with more than one constraint"
breaks = "only the first constraint enters the minimised function"
stub = True
extra = ["src/Minimiser.cpp"]
edits = [("src/Minimiser.cpp", "for ( auto& extendTerm : m_extendedTerms ) LL -= 2 * (*extendTerm)();", "for ( auto& extendTerm : m_extendedTerms ) { LL -= 2 * (*extendTerm)(); break; }")]
demo = r'''#include "AmpGen/Minimiser.h"
#include "AmpGen/ExtendLikelihoodBase.h"
#include "AmpGen/MinuitParameterSet.h"
#include <Math/Minimizer.h>
#include <iostream>
#include <cmath>
using namespace AmpGen;
struct Pull : ExtendLikelihoodBase { MinuitParameter* p; double s; Pull(MinuitParameter* p,double s):p(p),s(s){} double operator()() const override { return -p->mean()*p->mean()/(2*s*s); } void configure(const std::string&,const MinuitParameterSet&) override {} ExtendLikelihoodBase* create() override { return nullptr; } };
int main(){
  MinuitParameterSet mps; mps.add("a",Flag::Free,1,1); mps.add("b",Flag::Free,2,1);
  std::function<double(void)> f=[&]{ return 3*mps["a"]->mean(); };
  Minimiser m(f,&mps); Pull c1(mps["a"],1), c2(mps["b"],0.5);
  m.addExtendedTerm(&c1); m.addExtendedTerm(&c2);
  double x[2]={2,3}; double v=m(x);   // 6 + 4 + 36
  if( std::abs(v-46) > 1e-9 ){ std::cout << "minimised function is " << v << " rather than 46\n"; return 1; }
  return 0;
}
'''
