// Text and combinatorics helpers driver (P20).
#include "driver.h"
#include "AmpGen/Utilities.h"
#include "AmpGen/enum.h"
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
namespace AmpGen { make_enum(VEnum, Alpha, Beta, Alphabet, B) }
using namespace AmpGen;
int verif_chunk=500;
namespace {
J num3(double d, bool ok){ return ok? J::list({true,num(d*1000,1e-6)}) : J::list({false,0}); }
template<class T> J ivec(const std::vector<T>& v){ J r=J::mkarr(); for(auto x: v) r.push(J((long long)x)); return r; }
std::vector<int> ints(const J& j){ std::vector<int> v; for(auto& x: j.a) v.push_back(x.num()); return v; }
}
struct W : World {
  J apply(const J& o) override {
    const std::string& f=o["f"].str();
    if(f=="split"){ auto& s=o["s"].str(); char d=o["d"].str()[0]; auto k=split(s,d,false); return J::list({J::arr(split(s,d)),J::arr(k),vectorToString(k,std::string(1,d))}); }
    if(f=="splitany"){ std::vector<char> ds; for(auto& x: o["ds"].a) ds.push_back(x.str()[0]); auto k=split(o["s"].str(),ds,true); return J::list({J::arr(split(o["s"].str(),ds)),J::arr(k),vectorToString(k,"")}); }
    if(f=="join"){ std::vector<std::string> v; for(auto& x: o["q"].a) v.push_back(x.str()); return vectorToString(v,o["d"].str()); }
    if(f=="trim"){ auto& s=o["s"].str(); return J::list({ltrim(s),rtrim(s),trim(s)}); }
    if(f=="find") return ivec(findAll(o["s"].str(),o["p"].str()));
    if(f=="next"){ std::vector<std::string> ps; for(auto& x: o["ps"].a) ps.push_back(x.str()); auto p=find_next_of(o["s"].str(),ps,o["b"].num()); return p==std::string::npos?J(-1):J((long long)p); }
    if(f=="replace") return replaceAll(o["s"].str(),o["a"].str(),o["b"].str());
    if(f=="rules"){ std::vector<std::pair<std::string,std::string>> r; for(auto& x: o["r"].a) r.emplace_back(x[0].str(),x[1].str()); return replaceAll(o["s"].str(),r); }
    if(f=="swap"){ std::string s=o["s"].str(); swapChars(s,o["a"].str()[0],o["b"].str()[0]); return s; }
    if(f=="wild") return stringMatchesWildcard(o["s"].str(),o["p"].str(),o["w"].str()[0]);
    if(f=="edit") return editDistance(o["s"].str(),o["t"].str());
    if(f=="items") return J::arr(getItems(o["s"].str(),{o["b"][0].str(),o["b"][1].str()},o["sep"].str()));
    if(f=="num"){ auto& s=o["s"].str(); bool a=true,b=true,c=true,d=true,e=true,g=true; double x=lexical_cast<double>(s,a); int y=lexical_cast<int>(s,b); bool z=lexical_cast<bool>(s,c); float w=lexical_cast<float>(s,d); long l=lexical_cast<long>(s,e);
      bool neg=s[0]=='-'; unsigned u=lexical_cast<unsigned>(s,g);
      J i=b?J::list({true,y}):J::list({false,0}); if(d!=a||(a&&std::fabs(w-x)>1e-3*std::max(1.,std::fabs(x)))) i.push("float"); if(e!=b||(b&&l!=y)) i.push("long"); if(!neg&&(g!=b||(b&&u!=(unsigned)y))) i.push("unsigned");
      return J::list({num3(x,a),i,c?J::list({true,int(z)}):J::list({false,0})}); }
    if(f=="round"){ double n=o["n"].num()/1000., e=o["e"].num()/1000.; unsigned d=o["d"].num(); return J::list({AmpGen::round(n,d),numberWithError(n,e,d)}); }
    if(f=="ncr"){ auto v=nCr<int>(o["n"].num(),o["r"].num()); auto u=nCr<unsigned>(o["n"].num(),o["r"].num()); std::sort(v.begin(),v.end()); std::sort(u.begin(),u.end()); J r=J::mkarr(); for(auto& x: v) r.push(ivec(x)); if(u.size()!=v.size()) r.push("unsigned"); return r; }
    if(f=="product"){ std::vector<std::vector<int>> q; for(auto& x: o["q"].a) q.push_back(ints(x)); auto c=all_combinations(q); std::sort(c.begin(),c.end()); J r=J::mkarr(); for(auto& x: c) r.push(ivec(x)); return r; }
    if(f=="sort"){ auto v=ints(o["q"]), w=v; parallel_sort(v.begin(),v.end(),size_t(o["g"].num())); parallel_sort(w.begin(),w.end(),[](int a,int b){ return a>b; },size_t(o["g"].num())); return J::list({ivec(v),ivec(w)}); }
    if(f=="acc"){ auto v=ints(o["q"]); return num(parallel_accumulate(v.begin(),v.end(),double(o["init"].num()),[](int x){ return double(x*x+1); })); }
    if(f=="lines"){ { std::ofstream out("lines.txt"); bool first=true; for(auto& l: o["ls"].a){ if(!first) out<<"\n"; first=false; out<<l.str(); } if(o["ls"].size()%2==0) out<<"\n"; } auto v=vectorFromFile("lines.txt",o["c"].str()[0]); ::unlink("lines.txt"); return J::arr(v); }
    if(f=="expand"){ for(auto& e: o["env"].a) setenv(e[0].str().c_str(),e[1].str().c_str(),1); unsetenv("VFNO"); return expandGlobals(o["s"].str()); }
    if(f=="ls"){ ::mkdir("lsdir",0755); for(auto& x: o["files"].a) std::ofstream("lsdir/"+x.str())<<"x"; auto v=getListOfFiles("lsdir",o["p"].str()); bool ex=true; for(auto& x: v) ex=ex&&fileExists(x)&&!isDir(x); ex=ex&&isDir("lsdir")&&!fileExists("lsdir/none"); for(auto& x: o["files"].a) ::unlink(("lsdir/"+x.str()).c_str()); ::rmdir("lsdir");
      std::sort(v.begin(),v.end()); J r=J::mkarr(); for(auto& x: v) r.push(x.substr(0,6)=="lsdir/"?x.substr(6):x); if(!ex) r.push("exists"); return r; }
    if(f=="enum"){ auto e=parse<VEnum>(o["s"].str()); if(e==VEnum::Invalid) return "Invalid"; std::stringstream ss; ss<<e; return ss.str()==AmpGen::to_string<VEnum>(e)?ss.str():"stream"; }
    throw std::logic_error("vjson op "+f);
  }
};
std::unique_ptr<World> makeWorld(){ return std::unique_ptr<World>(new W); }
