property = "P02"
needs = "a start-value change without a step on a parameter whose current value was moved, then a reset"
breaks = "the error after a reset is the error of the last fit instead of the initial step once a fit result was stored"
edits = [("src/MinuitParameter.cpp", "  m_errResult    = m_stepInit;\n  m_errPosResult = -9999;", "  if( m_errPosResult <= 0 ) m_errResult = m_stepInit;\n  m_errPosResult = -9999;")]
demo = r'''#include "AmpGen/MinuitParameter.h"
#include <iostream>
using namespace AmpGen;
int main(){
  MinuitParameter p("a", Flag::Free, 1., 0.25);
  p.setResult(3., 0.5, -0.5, 0.75);
  p.resetToInit();
  if( p.mean() != 1. || p.err() != 0.25 || p.errPos() != -9999 ){ std::cout << "error after reset: " << p.err() << "\n"; return 1; }
  return 0;
}
'''
