property = "P20"
needs = "text that ends in white space other than a blank or a tab (carriage return, newline, vertical tab)"
breaks = "trimming leaves trailing carriage returns and newlines in place"
edits = [("src/Utilities.cpp", "  s.erase( std::find_if( s.rbegin(), s.rend(), [](unsigned char c){ return !std::isspace(c); }).base(), s.end() );", "  s.erase( std::find_if( s.rbegin(), s.rend(), [](unsigned char c){ return !std::isblank(c); }).base(), s.end() );")]
demo = r'''#include "AmpGen/Utilities.h"
#include <iostream>
int main(){
  if( AmpGen::trim(" a b \r\n") != "a b" || AmpGen::rtrim("x\t\v ") != "x" ){ std::cout << "not trimmed\n"; return 1; }
  return 0;
}
'''
