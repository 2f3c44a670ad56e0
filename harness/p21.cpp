// Vector registers of doubles and of floats (P21).
#include "driver.h"
#include "rat.h"
#include "AmpGen/simd/utils.h"
#undef libmvec_alias
#include "AmpGen/simd/avx2f_types.h"
#include <functional>
using namespace AmpGen;
int verif_chunk=2000;
static std::string showF(double x){ if(std::isnan(x)) return "nan"; if(std::isinf(x)) return x>0?"inf":"-inf"; for(int pi=0;pi<2;++pi) for(int q=1;q<=(pi?12:60);++q){ double y=pi?x/M_PI:x,p=std::round(y*q); if(std::fabs(y-p/q)<=2e-6*std::max(1.0,std::fabs(y))) return (q==1?std::to_string((long long)p):std::to_string((long long)p)+"/"+std::to_string(q))+(pi?"pi":""); } char b[40]; snprintf(b,40,"%.6g",x); return b; }
static double val(const J& v){ return double(v[0].num())/double(v[1].num())+M_PI*double(v[2].num())/double(v[3].num()); }
static std::complex<double> cval(const J& v){ return {double(v[0].num())/double(v[1].num()),double(v[2].num())/double(v[3].num())}; }
template<class RV> struct M {
  using S=typename RV::scalar_type; using CV=Complex<RV>; static constexpr unsigned N=RV::size, K=8/N; static constexpr bool dbl=N==4;
  using R=std::array<RV,K>; using C=std::array<CV,K>;
  R r; C z; 
  static std::string sh(double x){ return dbl?showReal(x):showF(x); }
  static RV vec(const std::array<double,8>& x,unsigned k){ S b[N]; for(unsigned i=0;i<N;++i) b[i]=S(x[k*N+i]); return RV(b); }
  static R real(const J& a){ std::array<double,8> x; for(int i=0;i<8;++i) x[i]=val(a[i]); R v; for(unsigned k=0;k<K;++k) v[k]=vec(x,k); return v; }
  static R realpart(const J& a){ std::array<double,8> x; for(int i=0;i<8;++i) x[i]=cval(a[i]).real(); R v; for(unsigned k=0;k<K;++k) v[k]=vec(x,k); return v; }
  static C cplx(const J& a){ std::array<double,8> x,y; for(int i=0;i<8;++i){ x[i]=cval(a[i]).real(); y[i]=cval(a[i]).imag(); } C v; for(unsigned k=0;k<K;++k) v[k]=CV(vec(x,k),vec(y,k)); return v; }
  static R mask(const J& a){ std::array<double,8> x; for(int i=0;i<8;++i) x[i]=a[i].num(); R v; for(unsigned k=0;k<K;++k) v[k]=vec(x,k)>RV(S(0.5)); return v; }
  static J out(const R& v){ J a=J::mkarr(); for(unsigned i=0;i<8;++i) a.push(J::list({J(sh(v[i/N].at(i%N))),J("0")})); return a; }
  static J out(const C& v){ J a=J::mkarr(); for(unsigned i=0;i<8;++i) a.push(J::list({J(sh(v[i/N].re.at(i%N))),J(sh(v[i/N].im.at(i%N)))})); return a; }
  static J bits(const R& v){ J a=J::mkarr(); for(unsigned k=0;k<K;++k){ RV s=select(v[k],RV(S(1)),RV(S(0))); for(unsigned i=0;i<N;++i) a.push(J(s.at(i)==1?"1":s.at(i)==0?"0":"x")); } return a; }
  static J bitsC(const R& v){ J a=J::mkarr(); for(auto& x: bits(v).a) a.push(J::list({x,J("0")})); return a; }
  template<class F> static R each(const R& a,F f){ R v; for(unsigned k=0;k<K;++k) v[k]=f(a[k]); return v; }
  static RV un(const std::string& o,const RV& a){
    if(o=="neg") return -a; if(o=="abs") return abs(a); if(o=="sqrt") return sqrt(a); if(o=="sin") return sin(a); if(o=="cos") return cos(a); if(o=="tan") return tan(a); if(o=="exp") return exp(a); if(o=="log") return log(a); if(o=="sign") return sign(a);
    if(o=="conj"){ if constexpr(dbl) return conj(a); else return a; } if(o=="sc.s"){ RV s,c; sincos(a,s,c); return s; } if(o=="sc.c") return sincos(a).second;
    if(o=="toint"){ S b[N]; if constexpr(dbl){ auto x=AVX2d::store(a.to_int()); for(unsigned i=0;i<N;++i) b[i]=S(x[i]); } else { auto x=AVX2f::store(a.to_int()); for(unsigned i=0;i<N;++i) b[i]=S(x[i]); } return RV(b); }
    if(o=="gather"){ static double base[64]; for(int k=0;k<64;++k) base[k]=3*k-7; return gather(base,a); }
    throw std::logic_error("vjson un "+o); }
  static RV bin(const std::string& o,const RV& a,const RV& b){ if(o=="+") return a+b; if(o=="-") return a-b; if(o=="*") return a*b; if(o=="/") return a/b; if(o=="fmod") return fmod(a,b); if(o=="atan2") return atan2(a,b); if(o=="rem") return remainder(a,b); throw std::logic_error("vjson bin "+o); }
  static RV cmp(const std::string& o,const RV& a,const RV& b){ if(o=="<") return a<b; if(o==">") return a>b; if(o=="<=") return a<=b; if(o==">=") return a>=b; if(o=="==") return a==b; throw std::logic_error("vjson cmp "+o); }
  template<class A,class B> static auto ar(const std::string& o,const A& a,const B& b)->decltype(a+b){ if(o=="+") return a+b; if(o=="-") return a-b; if(o=="*") return a*b; if(o=="/") return a/b; throw std::logic_error("vjson ar "+o); }
  template<class A> static void upd(const std::string& o,A& a,const A& b){ if(o=="+=") a+=b; else if(o=="-=") a-=b; else if(o=="*=") a*=b; else if(o=="/=") a/=b; else throw std::logic_error("vjson upd "+o); }
  // lanes in which a function differs from the scalar one
  static J el(const std::string& f,const J& a,const J& b){
    J bad=J::mkarr(); double tol=dbl?1e-13:3e-6; bool cx=f[0]=='c'&&f[1]=='.'; std::string g=cx?f.substr(2):f; using Z=std::complex<double>;
    if(!cx){ auto x=real(a),y=real(b); for(unsigned i=0;i<8;++i){ double p=x[i/N].at(i%N),q=y[i/N].at(i%N),w; RV v;
        if(g=="fmod"){ v=fmod(x[i/N],y[i/N]); w=std::fmod(p,q); double d=std::fabs(v.at(i%N)-w); d=std::min(d,std::fabs(d-std::fabs(q))); if(!(d<=1e2*tol*std::max(1.,std::fabs(p)))) bad.push(J(std::to_string(i))); continue; }
        if(g=="atan2"){ v=atan2(x[i/N],y[i/N]); w=std::atan2(p,q); }
        else { v=un(g,x[i/N]); w=g=="sin"||g=="sc.s"?std::sin(p):g=="cos"||g=="sc.c"?std::cos(p):g=="tan"?std::tan(p):g=="exp"?std::exp(p):g=="log"?std::log(std::fabs(p)):g=="sqrt"?std::sqrt(std::fabs(p)):g=="abs"?std::fabs(p):-p; if(g=="log"||g=="sqrt") v=un(g,un("abs",x[i/N])); }
        double t=tol*std::max(1.,std::fabs(w)); if(g=="tan") t*=1+w*w; if(!(std::fabs(v.at(i%N)-w)<=t)) bad.push(J(std::to_string(i))); } }
    else { auto x=cplx(a); for(unsigned i=0;i<8;++i){ Z p(x[i/N].re.at(i%N),x[i/N].im.at(i%N)),w; CV v; double t=tol;
        if(g=="exp"){ v=exp(x[i/N]); w=std::exp(p); t*=std::max(1.,std::abs(w)); } else if(g=="log"){ v=log(x[i/N]); w=std::log(p); t*=10*std::max(1.,std::abs(w)); } else { v=sqrt(x[i/N]); w=std::sqrt(p); t=(dbl?1e-7:2e-3)*std::max(1.,std::abs(w)); }
        if(!(std::abs(Z(v.re.at(i%N),v.im.at(i%N))-w)<=t)) bad.push(J(std::to_string(i))); } }
    return bad; }
  J apply(const J& o){
    const std::string& f=o["f"].str(); const std::string g=o.has("o")?o["o"].str():"";
    if(f=="setr"){ r=real(o["a"]); return out(r); } if(f=="setz"){ z=cplx(o["a"]); return out(z); }
    if(f=="updr"){ R b; if(!o["self"].boolean()) b=real(o["a"]); for(unsigned k=0;k<K;++k) upd(g,r[k],o["self"].boolean()?r[k]:b[k]); return out(r); }
    if(f=="updz"){ C b; if(!o["self"].boolean()) b=cplx(o["a"]); for(unsigned k=0;k<K;++k) upd(g,z[k],o["self"].boolean()?z[k]:b[k]); return out(z); }
    if(f=="un") return out(each(real(o["a"]),[&](const RV& a){ return un(g,a); }));
    if(f=="bin"){ auto a=real(o["a"]),b=real(o["b"]); R v; for(unsigned k=0;k<K;++k) v[k]=bin(g,a[k],b[k]); return out(v); }
    if(f=="fma"){ auto a=real(o["a"]),b=real(o["b"]),c=real(o["c"]); R v; for(unsigned k=0;k<K;++k) v[k]=fmadd(a[k],b[k],c[k]); return out(v); }
    if(f=="cmp"){ auto a=real(o["a"]),b=real(o["b"]); R v; for(unsigned k=0;k<K;++k) v[k]=cmp(g,a[k],b[k]); return bitsC(v); }
    if(f=="mask"){ auto a=mask(o["m"]),b=mask(o["n"]); R v; for(unsigned k=0;k<K;++k) v[k]=g=="and"?(o["w"].boolean()?a[k]&&b[k]:a[k]&b[k]):g=="or"?(o["w"].boolean()?a[k]||b[k]:a[k]|b[k]):a[k]^b[k]; return bits(v); }
    if(f=="maskb"){ if constexpr(dbl){ auto a=mask(o["m"]); bool b=o["b"].boolean(); R v; for(unsigned k=0;k<K;++k) v[k]=g=="and"?(o["w"].boolean()?a[k]&&b:b&&a[k]):(o["w"].boolean()?a[k]||b:b||a[k]); return bits(v); } else return J("none"); }
    if(f=="not") return bits(each(mask(o["m"]),[](const RV& a){ return !a; }));
    if(f=="sel"){ auto a=real(o["a"]),b=real(o["b"]),m=mask(o["m"]); R v; for(unsigned k=0;k<K;++k) v[k]=select(m[k],a[k],b[k]); return out(v); }
    if(f=="selb"){ auto a=real(o["a"]),b=real(o["b"]); R v; for(unsigned k=0;k<K;++k) v[k]=select(o["c"].boolean(),a[k],b[k]); return out(v); }
    if(f=="csel"){ auto a=cplx(o["a"]),b=cplx(o["b"]); auto m=mask(o["m"]); C v; for(unsigned k=0;k<K;++k) v[k]=g=="cc"?select(m[k],a[k],b[k]):g=="rc"?select(m[k],a[k].re,b[k]):select(m[k],a[k],b[k].re); return out(v); }
    if(f=="cselb"){ auto a=cplx(o["a"]),b=cplx(o["b"]); bool c=o["c"].boolean(); C v; for(unsigned k=0;k<K;++k){ if(g=="cc") v[k]=select(c,a[k],b[k]); else if constexpr(dbl) v[k]=g=="rc"?select(c,a[k].re,b[k]):select(c,a[k],b[k].re); } return out(v); }
    if(f=="cun"){ auto a=cplx(o["a"]); C v; R w; bool isr=g!="neg"&&g!="conj"&&g!="sqrt"; for(unsigned k=0;k<K;++k){ auto& x=a[k]; if(g=="neg") v[k]=-x; else if(g=="conj") v[k]=conj(x); else if(g=="sqrt") v[k]=sqrt(x); else if(g=="norm") w[k]=AmpGen::norm(x); else if(g=="mnorm") w[k]=x.norm(); else if(g=="abs") w[k]=AmpGen::abs(x); else if(g=="real") w[k]=AmpGen::real(x); else w[k]=AmpGen::imag(x); } return isr?out(w):out(v); }
    if(f=="cbin"){ auto a=cplx(o["a"]),b=cplx(o["b"]); C v; for(unsigned k=0;k<K;++k) v[k]=ar(g,a[k],b[k]); return out(v); }
    if(f=="crbin"){ auto a=cplx(o["a"]); auto b=realpart(o["b"]); C v; for(unsigned k=0;k<K;++k) v[k]=ar(g,a[k],b[k]); return out(v); }
    if(f=="rcbin"){ auto a=realpart(o["a"]); auto b=cplx(o["b"]); C v; for(unsigned k=0;k<K;++k) v[k]=ar(g,a[k],b[k]); return out(v); }
    if(f=="csbin"){ auto a=cplx(o["a"]); S b=S(cval(o["b"][0]).real()); C v; for(unsigned k=0;k<K;++k) v[k]=ar(g,a[k],b); return out(v); }
    if(f=="scbin"){ S a=S(cval(o["a"][0]).real()); auto b=cplx(o["b"]); C v; for(unsigned k=0;k<K;++k) v[k]=ar(g,a,b[k]); return out(v); }
    if(f=="at"){ if constexpr(dbl){ auto a=cplx(o["a"]); J v=J::mkarr(); for(unsigned i=0;i<8;++i){ auto x=utils::at(a[i/N],i%N); v.push(J::list({J(sh(x.real())),J(sh(x.imag()))})); } 
        auto x=utils::get<0>(a[0]); auto y=utils::get<3>(a[1]); if(x!=utils::at(a[0],0)||y!=utils::at(a[1],3)) return J("get"); double s[4]; utils::store(s,a[0].re); for(int i=0;i<4;++i) if(s[i]!=a[0].re.at(i)) return J("store"); return v; } else return J("none"); }
    if(f=="sum"){ if constexpr(dbl){ auto a=real(o["a"]); return J::list({J(sh(utils::sum_elements(a[0]))),J(sh(utils::sum_elements(a[1])))}); } else return J("none"); }
    if(f=="all"){ if constexpr(dbl){ auto a=mask(o["m"]); return J::list({J(utils::all_of(a[0])?"1":"0"),J(utils::all_of(a[1])?"1":"0")}); } else return J("none"); }
    if(f=="pack"){ if constexpr(dbl){ std::vector<double> v; for(int i=1;i<=o["n"].num();++i) v.push_back(i); auto g=[](const double& x){ return 10*x; }; unsigned k=o["k"].num(); auto x=o["c"].boolean()?utils::gather<RV>(v,g,k,7.):utils::gather<RV>(v,g,k); J a=J::mkarr(); for(unsigned i=0;i<N;++i) a.push(J(sh(x.at(i)))); return a; } else return J("none"); }
    if(f=="asize"){ if constexpr(dbl) return J(std::to_string(utils::aligned_size<RV>(o["n"].num()))); else return J("none"); }
    if(f=="eqall"){ if constexpr(dbl){ auto a=real(o["a"]); RV b(S(val(o["b"]))); return J::list({J(utils::all_of(a[0],b)?"1":"0"),J(utils::all_of(a[1],b)?"1":"0")}); } else return J("none"); }
    if(f=="el") return el(g,o["a"],o["b"]);
    throw std::logic_error("vjson op "+f); }
};
struct W : World { M<AVX2d::real_v> d; M<AVX2f::real_v> s; J apply(const J& o) override { return o["t"].str()=="d"?d.apply(o):s.apply(o); } };
std::unique_ptr<World> makeWorld(){ return std::unique_ptr<World>(new W); }
