// Minimal JSON value used by the conformance drivers (no external dependency).
#ifndef VERIF_VJSON_H
#define VERIF_VJSON_H
#include <string>
#include <vector>
#include <map>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <complex>
#include <stdexcept>
#include <cstring>
#include <cstdint>
struct J {
  enum T { Null, Bool, Int, Str, Arr, Obj } t = Null;
  bool b = false; long long i = 0; std::string s; std::vector<J> a; std::map<std::string,J> o;
  J() {}
  J(bool v):t(Bool),b(v){}
  J(int v):t(Int),i(v){} J(unsigned v):t(Int),i(v){} J(long v):t(Int),i(v){} J(unsigned long v):t(Int),i((long long)v){} J(long long v):t(Int),i(v){}
  J(const char* v):t(Str),s(v){} J(const std::string& v):t(Str),s(v){}
  J(const std::vector<J>& v):t(Arr),a(v){}
  template<class X> static J arr(const std::vector<X>& v){ J r; r.t=Arr; for(const auto& x: v) r.a.push_back(J(x)); return r; }
  static J list(std::initializer_list<J> l){ J r; r.t=Arr; for(auto& x:l) r.a.push_back(x); return r; }
  static J mkarr(){ J r; r.t=Arr; return r; }
  void push(const J& x){ t=Arr; a.push_back(x); }
  const J& operator[](const char* k) const { auto it=o.find(k); if(it==o.end()) throw std::logic_error(std::string("vjson: no key ")+k); return it->second; }
  const J& operator[](int k) const { return a.at(k); }
  bool has(const char* k) const { return o.count(k)!=0; }
  size_t size() const { return t==Arr? a.size() : o.size(); }
  const std::string& str() const { if(t!=Str) throw std::logic_error("vjson: not a string"); return s; }
  long long num() const { if(t!=Int) throw std::logic_error("vjson: not an int"); return i; }
  bool boolean() const { if(t!=Bool) throw std::logic_error("vjson: not a bool"); return b; }
  void dump(std::string& r) const {
    switch(t){
      case Null: r+="null"; break;
      case Bool: r+= b?"true":"false"; break;
      case Int: r+=std::to_string(i); break;
      case Str: r+='"'; for(unsigned char c: s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c=='\n') r+="\\n"; else if(c=='\t') r+="\\t"; else if(c=='\r') r+="\\r"; else if(c<32){char q[8];snprintf(q,8,"\\u%04x",c);r+=q;} else r+=c; } r+='"'; break;
      case Arr: { r+='['; bool f=true; for(auto&x:a){ if(!f) r+=','; f=false; x.dump(r);} r+=']'; break; }
      case Obj: { r+='{'; bool f=true; for(auto&x:o){ if(!f) r+=','; f=false; J(x.first).dump(r); r+=':'; x.second.dump(r);} r+='}'; break; }
    }
  }
  std::string dump() const { std::string r; dump(r); return r; }
  static J parse(const std::string& z){ const char* p=z.c_str(); J r=pv(p); return r; }
  private:
  static void ws(const char*& p){ while(*p==' '||*p=='\n'||*p=='\t'||*p=='\r') ++p; }
  static J pv(const char*& p){
    ws(p);
    if(*p=='{'){ J r; r.t=Obj; ++p; ws(p); if(*p=='}'){++p;return r;} for(;;){ ws(p); J k=pv(p); ws(p); if(*p!=':') throw std::logic_error("vjson parse :"); ++p; r.o[k.s]=pv(p); ws(p); if(*p==','){++p;continue;} if(*p=='}'){++p;return r;} throw std::logic_error("vjson parse }"); } }
    if(*p=='['){ J r; r.t=Arr; ++p; ws(p); if(*p==']'){++p;return r;} for(;;){ r.a.push_back(pv(p)); ws(p); if(*p==','){++p;continue;} if(*p==']'){++p;return r;} throw std::logic_error("vjson parse ]"); } }
    if(*p=='"'){ J r; r.t=Str; ++p; while(*p!='"'){ if(!*p) throw std::logic_error("vjson parse str"); if(*p=='\\'){ ++p; switch(*p){ case 'n': r.s+='\n'; break; case 't': r.s+='\t'; break; case 'r': r.s+='\r'; break; case 'u': { unsigned c=strtoul(std::string(p+1,4).c_str(),nullptr,16); p+=4; if(c<128) r.s+=char(c); else if(c<2048){ r.s+=char(0xC0|(c>>6)); r.s+=char(0x80|(c&63)); } else { r.s+=char(0xE0|(c>>12)); r.s+=char(0x80|((c>>6)&63)); r.s+=char(0x80|(c&63)); } break; } default: r.s+=*p; } ++p; } else r.s+=*p++; } ++p; return r; }
    if(!strncmp(p,"true",4)){p+=4;return J(true);} if(!strncmp(p,"false",5)){p+=5;return J(false);} if(!strncmp(p,"null",4)){p+=4;return J();}
    char* e; long long v=strtoll(p,&e,10); if(e==p) throw std::logic_error(std::string("vjson parse num at ")+p); p=e; return J(v);
  }
};
// A real number as an observation: an integer when it is one (within tol), otherwise a short decimal string.
inline J num(double x, double tol=1e-9){
  if(std::isnan(x)) return J("nan"); if(std::isinf(x)) return J(x>0?"inf":"-inf");
  double r=std::nearbyint(x); if(std::fabs(x-r)<=tol*std::max(1.0,std::fabs(x)) && std::fabs(r)<2e9) return J((long long)r);
  char q[40]; snprintf(q,40,"%.9g",x); return J(std::string(q));
}
inline J cnum(const std::complex<double>& c, double tol=1e-9){ return J::list({num(c.real(),tol),num(c.imag(),tol)}); }
#endif
