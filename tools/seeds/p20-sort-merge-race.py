property = "P20"
needs = "an input longer than the grain size and the helper thread still sorting its half when the caller merges (depends on the schedule)"
breaks = "parallel_sort merges the halves without waiting for the half sorted by the other thread, so the result is not always sorted"
edits = [("AmpGen/Utilities.h", "          future.wait();\n          std::inplace_merge(begin, middle, end, comp);\n", "          std::inplace_merge(begin, middle, end, comp);\n          future.wait();\n")]
demo = r'''#include "AmpGen/Utilities.h"
#include <algorithm>
#include <iostream>
#include <numeric>
#include <vector>
int main(){
  for( int rep = 0 ; rep < 200; ++rep ){
    std::vector<int> v(5000 + rep); unsigned x = 12345u + rep;
    for( auto& e : v ){ x = x*1664525u + 1013904223u; e = int(x >> 8); }
    auto w = v;
    AmpGen::parallel_sort( v.begin(), v.end(), 512 );
    std::sort( w.begin(), w.end() );
    if( v != w ){ std::cout << "not sorted\n"; return 1; }
  }
  return 0;
}
'''
