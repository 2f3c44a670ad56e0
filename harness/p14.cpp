#include "driver.h"
#include "AmpGen/Particle.h"
#include "AmpGen/Wigner.h"
#include "AmpGen/ParticlePropertiesList.h"
#include <fstream>
#include <cmath>
#include <unistd.h>
using namespace AmpGen;
int verif_chunk=400;
// signed square as a fraction
static std::string sq(double v){ if(std::isnan(v)) return "nan"; if(std::isinf(v)) return "inf"; if(std::fabs(v)<1e-11) return "0"; std::string s=v<0?"-":""; double x=v*v,y=x; long long p0=0,q0=1,p1=1,q1=0;
  for(int k=0;k<60;++k){ double f=std::floor(y); if(f>1e12) break; long long a=(long long)f,p2=a*p1+p0,q2=a*q1+q0; if(p2>100000||q2>100000) break; p0=p1;q0=q1;p1=p2;q1=q2; if(std::fabs(x-double(p1)/double(q1))<=1e-12*std::max(1.,x)) return s+std::to_string(p1)+(q1==1?"":"/"+std::to_string(q1)); if(y-f<1e-13) break; y=1/(y-f); }
  char b[40]; snprintf(b,40,"sqrt %.13g",x); return s+b; }
static J near(double v){ double r=std::round(v); if(std::fabs(v-r)<1e-8) return J((int)r); return J(std::to_string(v)); }
static double dval(double j,double m,double n,double cb){ auto c=wigner_d(Constant(cb),j,m,n)(); if(std::fabs(c.imag())>1e-11) return NAN; return c.real(); }
static std::string pname(int two,int par){ return "X"+std::to_string(two)+(par>0?"p":"m"); }
struct DB { std::string dir; DB(){ char t[]="/tmp/p14.XXXXXX"; dir=mkdtemp(t); std::ofstream o(dir+"/mass_width.csv"), a(dir+"/MintDalitzSpecialParticles.csv"), b(dir+"/pdgID_to_latex.dat"); int id=1000;
    for(int t2=0;t2<=14;++t2) for(int p: {1,-1}) o<<(1000.+t2)<<",0,0,100.,0,0,,,"<<(t2%2?std::to_string(t2)+"/2":std::to_string(t2/2))<<","<<(p>0?"+":"-")<<",,,"<<++id<<",0,,R,"<<pname(t2,p)<<",non-qQ\n";
    o.close(); a.close(); b.close(); setenv("AMPGENROOT",dir.c_str(),1); ParticlePropertiesList::getMe(); for(auto f: {"/mass_width.csv","/MintDalitzSpecialParticles.csv","/pdgID_to_latex.dat"}) ::unlink((dir+f).c_str()); ::rmdir(dir.c_str()); } };
struct W: World {
  J apply(const J& op) override { std::string f=op["f"].str(); auto I=[&](const char* k){ return (int)op[k].num(); };
    if(f=="cg"){ int a=I("a"),b=I("b"),c=I("c"); J t=J::mkarr(); for(int m=-a-4;m<=a+4;++m){ J r=J::mkarr(); for(int n=-b-4;n<=b+4;++n) r.push(J(sq(CG(a/2.,m/2.,b/2.,n/2.,c/2.,(m+n)/2.)))); t.push(r); }
      J u=J::mkarr(); for(int m=-a-4;m<=a+4;++m) u.push(J(sq(CG(a/2.,m/2.,b/2.,0,c/2.,(m+2)/2.)))); return J::list({t,u}); }
    if(f=="d"){ int j=I("j"); double cb=2.*I("p")/I("q")-1; J t=J::mkarr(); for(int m=-j-4;m<=j+4;++m){ J r=J::mkarr(); for(int n=-j-4;n<=j+4;++n) r.push(J(sq(dval(j/2.,m/2.,n/2.,cb)))); t.push(r); } return t; }
    if(f=="D"){ static const complex_t ph[4]={{1,0},{0,1},{-1,0},{0,-1}}; auto v=wigner_D({Constant(2.*I("p")/I("q")-1),Constant(ph[I("k")])},I("j")/2.,I("m")/2.,I("n")/2.,nullptr)(); return J::list({J(sq(v.real())),J(sq(v.imag()))}); }
    if(f=="ls"){ static DB db; Particle p(pname(I("h"),I("P"))+"0{"+pname(I("a"),I("p1"))+"0,"+pname(I("b"),I("p2"))+"0}",{},false); J r=J::mkarr(); for(bool c: {true,false}){ auto v=p.spinOrbitCouplings(c); std::sort(v.begin(),v.end()); J l=J::mkarr(); for(auto& x: v) l.push(J::list({J((int)std::lround(x.first)),J((int)std::lround(2*x.second))})); auto g=p.orbitalRange(c); r.push(J::list({l,J::list({J((int)g.first),J((int)g.second)})})); } return r; }
    if(f=="rec"){ J r=J::mkarr(); for(auto& l: calculate_recoupling_constants(I("h")/2.,0,I("L")/2.,I("S")/2.,I("a")/2.,I("b")/2.)) if(std::fabs(l.factor)>1e-11) r.push(J::list({J((int)std::lround(2*l.m1)),J((int)std::lround(2*l.m2)),J(sq(l.factor))})); return r; }
    if(f=="orth"){ int a=I("a"),b=I("b"); double s=0; for(int m=-a;m<=a;m+=2){ int n=I("m")-m; s+=CG(a/2.,m/2.,b/2.,n/2.,I("c")/2.,I("m")/2.)*CG(a/2.,m/2.,b/2.,n/2.,I("d")/2.,I("m")/2.); } return near(s); }
    if(f=="full"){ int a=I("a"),b=I("b"),M=I("M"); double s=0; for(int c=std::abs(a-b);c<=a+b;c+=2) s+=CG(a/2.,I("m")/2.,b/2.,(M-I("m"))/2.,c/2.,M/2.)*CG(a/2.,I("n")/2.,b/2.,(M-I("n"))/2.,c/2.,M/2.); return near(s); }
    if(f=="dorth"){ int j=I("j"); double cb=2.*I("p")/I("q")-1,s=0; for(int k=-j;k<=j;k+=2) s+=dval(j/2.,I("m")/2.,k/2.,cb)*dval(j/2.,I("n")/2.,k/2.,cb); return near(s); }
    throw std::logic_error("vjson op"); } };
std::unique_ptr<World> makeWorld(){ return std::make_unique<W>(); }
