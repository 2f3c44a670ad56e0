property = "P13"
needs = "adding the flavour of a particle with several alternatives to one with several (two neutral light mesons, or two of them after each other)"
breaks = "the summed flavour content loses combinations, so flavour comparison of the final state wrongly fails"
edits = [("src/QuarkContent.cpp", """    for ( unsigned int i = 0; i < oldThis.size(); i++ ) {
      for ( unsigned int j = 0; j < rhs.size(); j++ ) {
        m_quarks.push_back( oldThis[i] + rhs[j] );""", """    for ( unsigned int i = 0; i < oldThis.size(); i++ ) {
      for ( unsigned int j = 0; j < rhs.size(); j++ ) {
        if( oldThis.size() == rhs.size() && i != j ) continue;
        m_quarks.push_back( oldThis[i] + rhs[j] );""")]
demo = r'''#include "AmpGen/QuarkContent.h"
#include <iostream>
int main(){
  using AmpGen::QuarkContent;
  QuarkContent ks("x(dS)+y(sD)");
  if( ks + ks != QuarkContent("sS") || ks + ks != QuarkContent("dS") + QuarkContent("dS") ){ std::cout << "flavours lost\n"; return 1; }
  return 0;
}
'''
