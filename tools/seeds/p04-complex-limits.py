property = "P04"
needs = "a complex parameter with limits whose imaginary limits differ from the real ones"
breaks = "the imaginary part of a complex parameter with limits gets its lower limit from the wrong column"
edits = [("src/MinuitParameterSet.cpp", "double min_im  = hasLimits ? lexical_cast<double>( line[9] , status ) : 0;", "double min_im  = hasLimits ? lexical_cast<double>( line[4] , status ) : 0;")]
demo = r'''#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/OptionsParser.h"
#include <fstream>
#include <iostream>
using namespace AmpGen;
int main(){
  { std::ofstream f("p.opt"); f << "amp Free 1 0.1 -2 2 Free 0 0.1 -3 3\n"; }
  OptionsParser::getMe()->setQuiet();
  OptionsParser::getMe()->import("p.opt");
  MinuitParameterSet m; m.loadFromStream();
  auto re = m.find("amp_Re"), im = m.find("amp_Im");
  if( !re || !im || re->minInit() != -2 || re->maxInit() != 2 || im->minInit() != -3 || im->maxInit() != 3 ){ std::cout << "wrong limits\n"; return 1; }
  return 0;
}
'''
