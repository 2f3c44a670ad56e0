property = "P06"
needs = "simplifying a sum in which two equal terms are separated in the sorted list, with a complex prefactor in one of them"
breaks = "normal ordering drops the imaginary part of the prefactor of a repeated term"
edits = [("src/Simplify.cpp", "m_terms[i].m_prefactor += m_terms[j].m_prefactor; ", "m_terms[i].m_prefactor += std::real(m_terms[j].m_prefactor); ")]
demo = r'''#include "AmpGen/Expression.h"
#include "AmpGen/Simplify.h"
#include <iostream>
using namespace AmpGen;
int main(){
  Expression x = Parameter("x", 3.);
  Expression y = fcn::sin(Expression(2.)) ;
  auto e = x * std::complex<double>(0,1) + x + x * std::complex<double>(0,2);
  auto s = Simplify(e);
  auto a = e(), b = s();
  if( std::abs(a-b) > 1e-9 ){ std::cout << a << " became " << b << "\n"; return 1; }
  return 0;
}
'''
