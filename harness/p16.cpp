#include "driver.h"
#include "AmpGen/Transform.h"
#include "AmpGen/Wigner.h"
#include "AmpGen/DiracMatrices.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/MinuitParameterSet.h"
#include <cmath>
using namespace AmpGen;
int verif_chunk=200;
using Repr=Transform::Representation;
static const Repr reps[3]={Repr::Spinor,Repr::Bispinor,Repr::Vector};
static Repr repOf(const std::string& s){ return s=="s"?Repr::Spinor:s=="b"?Repr::Bispinor:Repr::Vector; }
static J whole(double x){ double r=std::round(x); if(std::fabs(x-r)<1e-5*std::max(1.,std::fabs(x)*1e-5) && std::fabs(r)<2e9) return J((long long)r); char b[40]; snprintf(b,40,"%.12g",x); return J(std::string(b)); }
static J gi(complex_t z,double sc){ return J::list({whole(z.real()*sc),whole(z.imag()*sc)}); }
static J mat(const Tensor& t,double sc,unsigned n){ auto d=t.dims(); if(d.size()!=2) return J("rank "+std::to_string(d.size())); J o=J::mkarr(); for(unsigned i=0;i<d[0];++i){ J r=J::mkarr(); for(unsigned j=0;j<d[1];++j) r.push(gi(t[{i,j}](),sc)); o.push(r); } return o; }
static J col(const Tensor& t,double sc){ auto d=t.dims(); if(d.size()!=1) return J("rank "+std::to_string(d.size())); J o=J::mkarr(); for(unsigned i=0;i<d[0];++i) o.push(gi(t[{i}](),sc)); return o; }
struct T { Transform t; double n; };
static std::vector<std::unique_ptr<MinuitParameter>> keep;
static Expression number(double v,bool live){ if(!live) return Constant(v); keep.emplace_back(new MinuitParameter("x"+std::to_string(keep.size()),Flag::Fix,v,0,0,0)); return MinuitParameterLink(keep.back().get()); }
static T transform(const J& j){ bool rot=j["t"].str()=="r"; double q[4]; for(int k=0;k<4;++k) q[k]=j["q"][k].num(); double s2=q[1]*q[1]+q[2]*q[2]+q[3]*q[3]; double N=rot?q[0]*q[0]+s2:q[0]*q[0]-s2; double a=rot?(q[0]*q[0]-s2)/N:(q[0]*q[0]+s2)/N; double s=std::sqrt(s2);
  bool live=(int(q[1]+2*q[2]+q[0])&1)!=0; // expressions, not only constants, as arguments
  Tensor k=s==0?Tensor({0,0,1},Tensor::dim(3)):Tensor({number(q[1]/s,live),number(q[2]/s,live),number(q[3]/s,live)},Tensor::dim(3)); return T{Transform(number(a,live),k,rot?Transform::Type::Rotate:Transform::Type::Boost),N}; }
static Tensor column(const J& v){ std::vector<complex_t> c; for(auto& x: v.a) c.push_back(complex_t(x[0].num(),x[1].num())); return Tensor(c,Tensor::dim((int)c.size())); }
struct W: World { TransformSequence s[2]; double n[2]={1,1};
  J show(int r){ J o=J::list({J((int)s[r].size())}); for(auto rp: reps) o.push(mat(s[r](rp),rp==Repr::Vector?n[r]:std::sqrt(n[r]),0)); return o; }
  J apply(const J& op) override { std::string f=op["f"].str(); auto R=[&](const char* k){ return (int)op[k].num()-1; };
    if(f=="new"){ int r=R("r"); s[r]=TransformSequence(); n[r]=1; return show(r); }
    if(f=="one"){ int r=R("r"); T t=transform(op["T"]); s[r]=TransformSequence(t.t); n[r]=t.n; return show(r); }
    if(f=="pair"){ int r=R("r"); T t=transform(op["T"]),u=transform(op["U"]); s[r]=TransformSequence(t.t,u.t); n[r]=t.n*u.n; return show(r); }
    if(f=="push"){ int r=R("r"); T t=transform(op["T"]); s[r].push_back(t.t); n[r]*=t.n; return show(r); }
    if(f=="app"){ int r=R("r"),a=R("a"); double x=n[a]; s[r].push_back(s[a]); n[r]*=x; return show(r); }
    if(f=="join"){ int r=R("r"),a=R("a"),b=R("b"); double x=n[a]*n[b]; s[r]=TransformSequence(s[a],s[b]); n[r]=x; return show(r); }
    if(f=="inv"){ int r=R("r"),a=R("a"); double x=n[a]; s[r]=s[a].inverse(); n[r]=x; return show(r); }
    if(f=="copy"){ int r=R("r"),a=R("a"); s[r]=s[a]; n[r]=n[a]; return show(r); }
    if(f=="clear"){ int r=R("r"); s[r].clear(); n[r]=1; return show(r); }
    if(f=="wick"){ int r=R("r"); int v=(int)op["ve"].num(); double p[6]; for(int k=0;k<6;++k) p[k]=op["p"][k].num(); bool photon=p[5]==0; Particle q(photon?"gamma0":"K+",0); double sc=photon?1:q.props()->mass()/p[5];
      Tensor P({sc*p[0],sc*p[1],sc*p[2],sc*p[4]},Tensor::dim(4)); s[r]=wickTransform(P,q,v);
      auto nrm=[](long a,long b,long c,long d,int sg){ long g=std::__gcd(std::labs(a),std::__gcd(std::labs(b),std::__gcd(std::labs(c),std::labs(d)))); a/=g;b/=g;c/=g;d/=g; return double(a*a+sg*(b*b+c*c+d*d)); };
      double N=p[0]==0&&p[1]==0?1:v==1?nrm(p[3]+p[2],p[1],-p[0],0,1):nrm(p[3]-p[2],-p[1],p[0],0,1); if(!photon&&p[3]!=0) N*=nrm(p[4]+p[5],0,0,p[3],-1); n[r]=N; return show(r); }
    if(f=="apply"){ int r=R("r"); Repr rp=repOf(op["rep"].str()); return col(s[r](column(op["v"]),rp),rp==Repr::Vector?n[r]:std::sqrt(n[r])); }
    if(f=="act"){ T t=transform(op["T"]); Repr rp=repOf(op["rep"].str()); return col(t.t(column(op["v"]),rp),rp==Repr::Vector?t.n:std::sqrt(t.n)); }
    if(f=="tr"){ T t=transform(op["T"]); J o=J::mkarr(); for(auto rp: reps){ double sc=rp==Repr::Vector?t.n:std::sqrt(t.n); o.push(J::list({mat(t.t(rp),sc,0),mat(t.t.inverse()(rp),sc,0)})); } return o; }
    if(f=="len"){ int r=R("r"); std::vector<complex_t> c; for(auto& x: op["v"].a) c.push_back(x.num()); Tensor v(c,Tensor::dim(4)); Tensor y=s[r](v); return whole((dot(y,y)()).real()*n[r]*n[r]); }
    if(f=="alg"){ Tensor::Index a,b,c; J o=J::mkarr(); J t=J::mkarr();
      auto multiple=[&](const Tensor& m){ complex_t x=m[{0,0}](); for(unsigned i=0;i<m.dims()[0];++i) for(unsigned j=0;j<m.dims()[1];++j) if(std::abs(m[{i,j}]()-(i==j?x:0.))>1e-12) return J("not a multiple of 1"); return whole(x.real()); };
      for(int i=0;i<5;++i){ J r=J::mkarr(); for(int j=0;j<5;++j){ Tensor x=Gamma[i](a,b)*Gamma[j](b,c), y=Gamma[j](a,b)*Gamma[i](b,c); r.push(multiple(x+y)); } t.push(r); } o.push(t);
      J g=J::mkarr(); for(auto& x: Gamma) g.push(mat(x,1,4)); o.push(g); J h=J::mkarr(); for(auto& x: Sigma) h.push(mat(x,1,2)); o.push(h); J k=J::mkarr(); for(auto& x: Sigma4) k.push(mat(x,1,4)); o.push(k);
      J u=J::mkarr(); for(int i=0;i<3;++i){ J r=J::mkarr(); for(int j=0;j<3;++j){ Tensor x=SO3[i](a,b)*SO3[j](b,c), y=SO3[j](a,b)*SO3[i](b,c); Tensor z=x-y; int best=99; for(int w=-3;w<=3;++w){ bool ok=true; for(unsigned p=0;p<4;++p) for(unsigned q=0;q<4;++q){ complex_t e=w==0?0.:(w>0?1.:-1.)*SO3[std::abs(w)-1][{p,q}](); if(std::abs(z[{p,q}]()-e)>1e-12) ok=false; } if(ok) best=w; } r.push(J(best)); } u.push(r); } o.push(u);
      J w=J::mkarr(); for(int i=0;i<8;++i){ J r=J::mkarr(); for(int j=0;j<8;++j){ complex_t x=0; for(unsigned p=0;p<3;++p) for(unsigned q=0;q<3;++q) x+=SU3[i][{p,q}]()*SU3[j][{q,p}](); r.push(whole(x.real())); } w.push(r); } o.push(w); return o; }
    throw std::logic_error("vjson op"); } };
std::unique_ptr<World> makeWorld(){ return std::make_unique<W>(); }
