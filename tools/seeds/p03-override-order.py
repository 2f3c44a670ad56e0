property = "P03"
needs = "a brace block whose opening line has nothing but the name and the brace"
breaks = "a brace block opened on its own line is ended at once: its lines become separate options"
edits = [("src/OptionsParser.cpp", "    if ( tokens.size() == 0 ) return;\n    std::string key = currentTokens[0];\n    if ( braceDepth != 0 ) return;", "    if ( tokens.size() == 0 ) return;\n    std::string key = currentTokens[0];\n    if ( braceDepth > 0 && currentTokens.size() > 1 ) return;")]
demo = r'''#include "AmpGen/OptionsParser.h"
#include <fstream>
#include <iostream>
using namespace AmpGen;
int main(){
  { std::ofstream f("a.opt"); f << "List::{\n  one\n  two\n}\nOther 3\n"; }
  { std::ofstream f("b.opt"); f << "List\n{\n one\n two\n}\nOther 3\n"; }
  auto o = OptionsParser::getMe(); o->setQuiet();
  o->import("a.opt");
  if( o->getInputOrdered().size() != 2 || o->find("List::{") == o->end() || o->find("List::{")->second.size() != 3 ){ std::cout << "block broken up: " << o->getInputOrdered().size() << "\n"; return 1; }
  return 0;
}
'''
