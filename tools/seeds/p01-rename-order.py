property = "P01"
needs = "renaming a parameter, then adding or unregistering a parameter whose name is the former one"
breaks = "after a rename the former name still leads to the parameter by lookup and blocks re-use of the name"
edits = [("src/MinuitParameterSet.cpp", "  it->setName(new_name);\n  m_keyAccess.erase(name);\n", "  it->setName(new_name);\n  m_keyAccess.erase(it->name());\n")]
demo = r'''#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitParameter.h"
#include <iostream>
using namespace AmpGen;
int main(){
  MinuitParameterSet mps;
  mps.add("a", Flag::Free, 1., 0.1);
  mps.add("b", Flag::Free, 2., 0.1);
  if( !mps.rename("a","c") ) return 2;
  if( mps.find("a") != nullptr ){ std::cout << "former name still found\n"; return 1; }
  auto p = new MinuitParameter("a", Flag::Fix, 5., 0.);
  if( !mps.add(p) || mps.size() != 3 ){ std::cout << "former name still taken\n"; return 1; }
  return 0;
}
'''
