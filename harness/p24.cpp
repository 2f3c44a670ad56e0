// Spin couplings (P24): vertices, projectors and external spin states with integer momenta and spin tensors.
#include "driver.h"
#include "AmpGen/Vertex.h"
#include "AmpGen/DiracMatrices.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/CompiledExpression.h"
#include "AmpGen/CompilerWrapper.h"
#include <cmath>
#include <map>
#include <unistd.h>
using namespace AmpGen;
int verif_chunk=400;
static std::vector<std::unique_ptr<MinuitParameter>> keep;
static Expression num(double a,double b,bool live){ if(!live) return Constant(a,b);
  keep.emplace_back(new MinuitParameter("re"+std::to_string(keep.size()),Flag::Free,a,0.1)); Expression r=MinuitParameterLink(keep.back().get());
  if(b!=0){ keep.emplace_back(new MinuitParameter("im"+std::to_string(keep.size()),Flag::Free,b,0.1)); r=r+Constant(0,1)*Expression(MinuitParameterLink(keep.back().get())); } return r; }
static Tensor vec(const J& p,bool live){ Tensor r(std::vector<unsigned>{4}); for(unsigned i=0;i<4;++i) r[i]=num(p.a[i].num(),0,live); return r; }
static Tensor in(const std::string& k,const J& v,bool live){ Tensor r(k=="S"? std::vector<unsigned>{1} : k=="T"||k=="r"? std::vector<unsigned>{4,4} : std::vector<unsigned>{4}); for(unsigned i=0;i<v.size();++i) r[i]=num(v.a[i].a[0].num(),v.a[i].a[1].num(),live); return r; }
// the components as integers over the denominator n
static J scaled(complex_t z,double n){ J r=J::mkarr(); for(double x: {z.real()*n,z.imag()*n}){ double k=std::round(x); if(std::isfinite(x)&&std::fabs(x-k)<=1e-9*std::max(n,std::fabs(x))&&std::fabs(x-k)<0.3) r.push(J((long long)k)); else r.push(J(std::to_string(x))); } return r; }
static J comps(const Tensor& t,double n){ J r=J::mkarr(); for(unsigned k=0;k<t.nElements();++k) r.push(scaled(t[t.coords(k)](),n)); return r; }
// the denominators: factor, power of the mass, with the photon momentum or not
struct Den { int k, a, w; };
static const std::map<std::string,Den> DEN={{"S_SS_S",{1,0,0}},{"S_VV_S",{1,0,0}},{"S_VV_S1",{1,2,0}},{"S_VV_P",{1,2,0}},{"S_VV_D",{3,6,0}},{"S_VS_P",{1,2,0}},{"S_TV_P",{1,2,0}},{"S_TV_D",{3,6,0}},{"S_TS_D",{3,6,0}},{"S_TT_S",{1,0,0}},{"V_SS_P",{1,2,0}},{"V_VS_P",{1,2,0}},{"V_VS_S",{1,2,0}},{"V_VS_D",{3,6,0}},{"V_TS_P",{1,4,0}},{"V_TS_D",{1,2,0}},{"V_VV_P",{1,2,0}},{"V_VV_P1",{1,4,0}},{"V_VV_P2",{6,6,0}},{"V_VV_S",{1,2,0}},{"T_VS_D",{2,4,0}},{"T_VS_P",{6,4,0}},{"T_SS_D",{3,6,0}},{"T_TS_S",{3,4,0}},{"f_fS_S",{2,1,0}},{"F_FS_S",{2,1,0}},{"f_fS_S1",{2,1,0}},{"F_FS_S1",{2,1,0}},{"f_fS_P",{2,3,0}},{"F_FS_P",{2,3,0}},{"f_fS_P1",{2,3,0}},{"F_FS_P1",{2,3,0}},{"f_fS_SL",{2,1,0}},{"F_FS_SL",{2,1,0}},{"f_fS_SR",{2,1,0}},{"F_FS_SR",{2,1,0}},{"f_Vf_S",{2,3,0}},{"F_VF_S",{2,3,0}},{"f_Vf_S1",{2,3,0}},{"F_VF_S1",{2,3,0}},{"f_Vf_SL",{2,1,0}},{"F_VF_SL",{2,1,0}},{"f_Vf_SR",{2,1,0}},{"F_VF_SR",{2,1,0}},{"f_Vf_P",{2,3,0}},{"F_VF_P",{2,3,0}},{"f_Vf_P2",{2,3,0}},{"F_VF_P2",{2,3,0}},{"f_Vf_P1",{2,5,0}},{"F_VF_P1",{2,5,0}},{"f_Vf_P3",{2,5,0}},{"F_VF_P3",{2,5,0}},{"f_Vf_D",{6,9,0}},{"F_VF_D",{6,9,0}},{"f_Vf_D1",{6,9,0}},{"F_VF_D1",{6,9,0}},{"f_Tf_P",{2,5,0}},{"F_TF_P",{2,5,0}},{"r_fS_P",{6,5,0}},{"R_FS_P",{6,5,0}},{"r_fS_D",{6,7,0}},{"R_FS_D",{6,7,0}},{"f_rS_P",{2,3,0}},{"F_RS_P",{2,3,0}},{"f_rS_P1",{2,3,0}},{"F_RS_P1",{2,3,0}},{"f_rS_D",{6,9,0}},{"F_RS_D",{6,9,0}},{"S_fF_S",{1,0,0}},{"S_fF_S1",{1,0,0}},{"V_fF_S",{1,2,0}},{"V_fF_S1",{1,0,0}},{"V_fF_PL",{1,2,0}},{"V_fF_PR",{1,2,0}},{"S_VV_rp",{4,0,1}},{"S_VV_rm",{4,0,1}},{"S_TV_rp",{8,0,1}},{"S_TV_rm",{8,0,1}},{"L1",{1,2,0}},{"L2",{3,6,0}},{"S1",{1,2,0}},{"S2",{6,4,0}},{"F",{2,1,0}},{"Fb",{2,1,0}},{"R",{6,5,0}},{"Rb",{6,5,0}},{"slash",{1,0,0}},{"bar",{1,0,0}},{"gamma",{1,0,0}},{"three",{1,0,0}},{"three0",{1,0,0}},{"gt",{1,2,0}}};
static double den(const std::string& n,const J& p,const J& q){ auto& d=DEN.at(n); double m2=0,w2=0; for(int i=0;i<4;++i){ double x=p.a[i].num(), y=x-q.a[i].num(); m2+= i==3? x*x:-x*x; if(i<3) w2+=y*y; } return std::round(d.k*std::pow(std::sqrt(m2),d.a)*(d.w?std::sqrt(w2):1)); }
using Fun = CompiledExpression<std::vector<complex_t>(const real_t*, const real_t*)>;
static std::map<std::string,std::unique_ptr<Fun>> funs;
struct W: World {
  J apply(const J& op) override { std::string f=op["f"].str();
    if(f=="vertex"){ bool lv=op["live"].b; auto& x=op["x"]; double n=den(x.a[0].str(),op["p"],op["q"]);
      Tensor r=Vertex::Factory::getSpinFactor(vec(op["p"],lv),vec(op["q"],lv),in(x.a[2].str(),op["a"],lv),in(x.a[3].str(),op["b"],lv),x.a[0].str()); return J::list({J((long long)n),comps(r,n)}); }
    if(f=="object"){ std::string k=op["n"].str(); double n=den(k,op["p"],op["q"]); Tensor p=vec(op["p"],false), q=vec(op["q"],false), r; J out;
      if(k=="L1") r=Orbital_PWave(p,q); else if(k=="L2") r=Orbital_DWave(p,q); else if(k=="S1") r=Spin1Projector(p); else if(k=="S2") r=Spin2Projector(p);
      else if(k=="F") r=Spin1hProjector(p); else if(k=="Fb") r=Spin1hbProjector(p); else if(k=="R"||k=="Rb") r= k=="R"? Spin3hProjector(p):Spin3hbProjector(p);
      else if(k=="slash") r=slash(q); else if(k=="gt") r=gamma_twiddle(p); else if(k=="bar"){ Tensor s(std::vector<unsigned>{4}); for(unsigned i=0;i<4;++i) s[i]=Constant(op["p"].a[i].num(),op["q"].a[i].num()); r=Bar(s); }
      else if(k=="gamma"){ r=Gamma4Vec(); J a=comps(r,1); for(auto& y: comps(Gamma[4],1).a) a.push(y); for(unsigned i=0;i<4;++i){ J b=comps(Gamma[i],1); for(unsigned j=0;j<16;++j) if(b.a[j].dump()!=a.a[16*i+j].dump()) return J("Gamma4Vec differs from Gamma"); } return J::list({J(1),a}); }
      else if(k=="three"||k=="three0"){ Tensor s({1.},std::vector<unsigned>{1}); r=Vertex::Factory::getSpinFactorNBody({{p,s},{q,s},{vec(op["r"],false),s}},k=="three"?1:0); }
      return J::list({J((long long)n),comps(r,n)}); }
    if(f=="pol"){ std::string nm=op["n"].str(), key=nm+op["basis"].str()+std::to_string(op["pol"].num()), k=op["k"].str();
      auto& c=funs[key]; if(!c){ OptionsParser::setArg("Particle::SpinBasis "+op["basis"].str()); Particle pt(nm,0); pt.setPolarisationState(std::vector<int>{int(op["pol"].num())});
        Tensor t=pt.externalSpinTensor(int(op["pol"].num())); t.st();
        std::map<std::string,unsigned> em{{"0_Px",0},{"0_Py",1},{"0_Pz",2},{"0_E",3}}; c.reset(new Fun(TensorExpression(t),"pol",em)); static int serial=0; CompilerWrapper cw; cw.compile(*c,"./pol"+std::to_string(::getpid())+"_"+std::to_string(serial++)); c->prepare(); }
      double m=ParticlePropertiesList::get(nm)->mass(), e[4], u=0; for(int i=0;i<4;++i) e[i]=op["p"].a[i].num(); double m0=std::sqrt(e[3]*e[3]-e[0]*e[0]-e[1]*e[1]-e[2]*e[2]); u= k=="g"? 1 : m/m0; for(auto& x: e) x*=u;
      double E0=op["p"].a[3].num(), s0=std::sqrt(std::max(0.,E0*E0-m0*m0)), w=op["basis"].str()=="Weyl"? (s0<1e-9?1:s0*m0) : m0*(E0+m0), n; if(s0<1e-9) s0=1;
      n= k=="f"||k=="F"? 4*m0*w : op["pol"].num()==0? w*w : op["basis"].str()=="Weyl"? 2*s0*s0 : 2*w*w; n=std::round(n);
      auto v=(*c)(e); if(v.size()!=4) return J("wrong size"); J a=J::mkarr(); for(int i=0;i<4;++i) for(int j=0;j<4;++j) a.push(scaled(v[i]*std::conj(v[j])*(k=="f"||k=="F"? (j<2?1.:-1.) : 1.),n)); return J::list({J((long long)n),a}); }
    throw std::logic_error("vjson op"); } };
std::unique_ptr<World> makeWorld(){ keep.clear(); return std::make_unique<W>(); }
