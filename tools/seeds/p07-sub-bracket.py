property = "P07"
needs = "a difference whose right-hand side is itself a difference"
breaks = "the generated code drops the brackets, so the compiled value of a-(b-c) is a-b-c"
edits = [("src/BinaryExpression.cpp", "[](auto& expression){ return is<Sum>(expression) || is<Sub>(expression) ; } , resolver ) ; ", "[](auto& expression){ return is<Sum>(expression) ; } , resolver ) ; ")]
demo = r'''#include "AmpGen/Expression.h"
#include "AmpGen/CompiledExpression.h"
#include "AmpGen/CompilerWrapper.h"
#include <iostream>
using namespace AmpGen;
int main(){
  Parameter a("a"), b("b"), c("c"); std::map<std::string,unsigned> m{{"a",0},{"b",1},{"c",2}};
  CompiledExpression<double(const double*, const double*)> f( Expression(a) - ( Expression(b) - Expression(c) ), "f", m );
  CompilerWrapper().compile(f); f.prepare();
  double x[3]={10,3,2};
  if( f(x) != 9 ){ std::cout << "10-(3-2) = " << f(x) << "\n"; return 1; }
  return 0;
}
'''
