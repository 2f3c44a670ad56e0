// Event generation: discrete distributions, accept-reject, phase space (P23).
#include "driver.h"
#include "AmpGen/Generator.h"
#include "AmpGen/PhaseSpace.h"
#include "AmpGen/TreePhaseSpace.h"
#include "AmpGen/RecursivePhaseSpace.h"
#include "AmpGen/DiscreteDistribution.h"
#include "AmpGen/EventList.h"
#include "AmpGen/EventListSIMD.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include <map>
using namespace AmpGen;
int verif_chunk=40;
static J frac(double x){ for(int q=1;q<=5040;++q){ double p=x*q; if(std::fabs(p-std::round(p))<1e-9) return J(q==1?std::to_string((long long)std::llround(p)):std::to_string((long long)std::llround(p))+"/"+std::to_string(q)); } return J("real"); }
// random numbers from a list; or the d-th number, d from 1
struct Script : TRandom3 { std::vector<double> u; size_t at=0; double Rndm() override { return u.at(at++); } };
struct Draw : TRandom3 { long d=0; double Rndm() override { ++d; return (1+(31*d+d/5)%96)/97.; } };
static EventType ty(const J& a,bool td){ std::vector<std::string> v; for(auto& x: a.a) v.push_back(x.str()); return EventType(v,td); }
// phase space that offers candidates 1, 2, ...
struct FakePS { static long at; EventType t; FakePS(const EventType& t):t(t){} EventType eventType() const { return t; } void setRandom(TRandom*){}
  Event makeEvent(){ Event e(12); long k=++at; long x=(5*k+k/7)%9; e[0]=x<2?0:x-1; e[1]=k; e.setWeight(1+(k/2)%3); e.setGenPdf(k%3==0?1:k%3==1?2:4); return e; } };
long FakePS::at=0;
struct FakePdf { const EventListSIMD* l=nullptr; bool ready=false; void reset(bool){ l=nullptr; ready=false; } void setEvents(const EventListSIMD& x){ l=&x; ready=false; } void prepare(){ ready=true; } void debug(const Event&){}
  real_v operator()(const real_v*,unsigned b) const { return ready?l->block(b)[0]:real_v(-1.); } double operator()(const Event& e) const { return e[0]; } };
static double q2(double M,double a,double b){ return (M*M-(a+b)*(a+b))*(M*M-(a-b)*(a-b)); }
// volume of the phase space of particles with the given masses at total mass M, up to a constant
static double vol(double M,const std::vector<double>& m){ if(m.size()==2){ double x=q2(M,m[0],m[1]); return x<=0?0:std::sqrt(x)/(M*M); }
  std::vector<double> r(m.begin(),m.end()-1); double lo=0; for(double x: r) lo+=x; double hi=M-m.back(); if(hi<=lo) return 0; double s=0; const int N=m.size()==3?400:120; for(int i=0;i<N;++i){ double t=(i+.5)/N, mu=lo+(hi-lo)*t; double k=q2(M,mu,m.back()); if(k>0) s+=2*mu*std::sqrt(k)/(M*M)*vol(mu,r); } return s*(hi-lo)/N; }
static std::vector<double> masses(const EventType& t){ auto m=t.masses(); return std::vector<double>(m.begin(),m.end()); }
static std::array<double,4> sum(const Event& e,const std::vector<int>& i){ std::array<double,4> p{}; for(int x: i) for(int k=0;k<4;++k) p[k]+=e[4*x+k]; return p; }
static double m2(const std::array<double,4>& p){ return p[3]*p[3]-p[0]*p[0]-p[1]*p[1]-p[2]*p[2]; }
// what is wrong with an event as a decay at rest of the mother
static std::string wrong(const Event& e,const EventType& t,const J& qs){ unsigned n=t.size(); if(e.size()!=4*n+t.isTimeDependent()) return "size"; std::vector<int> all; double M=t.motherMass(); auto m=masses(t);
  if(t.isTimeDependent()&&!(e[4*n]>=0&&std::isfinite(e[4*n]))) return "time";
  for(auto& q: qs.a){ std::vector<int> i; for(auto& x: q.a[1].a) i.push_back(x.num()); double w=ParticlePropertiesList::get(q.a[0].str())->mass(); if(std::fabs(m2(sum(e,i))-w*w)>1e-9*M*M) return "mass of "+q.a[0].str(); }
  for(unsigned i=0;i<n;++i){ all.push_back(i); for(int k=0;k<4;++k) if(!std::isfinite(e[4*i+k])) return "not a number"; double E=e[4*i+3]; if(E<m[i]*(1-1e-9)) return "energy"; if(std::fabs(m2(sum(e,{int(i)}))-m[i]*m[i])>1e-9*M*M) return "mass of particle "+std::to_string(i); }
  auto p=sum(e,all); for(int k=0;k<3;++k) if(std::fabs(p[k])>1e-9*M) return "momentum"; if(std::fabs(p[3]-M)>1e-9*M) return "total energy"; return ""; }
struct Maker { EventType t; std::unique_ptr<PhaseSpace> ps; std::unique_ptr<TreePhaseSpace> tp; std::unique_ptr<RecursivePhaseSpace> rp; TRandom3 r;
  Maker(const J& o):t(ty(o["t"],o["td"].boolean())),r(o["seed"].num()){ if(o["ch"].size()==0){ ps.reset(new PhaseSpace(t,&r)); return; }
    std::vector<Particle> c; for(auto& x: o["ch"].a) c.push_back(Particle(x.str(),t.finalStates())); TRandom* q=o["how"].str()=="default"?nullptr:&r;
    if(o["how"].str()=="rec") rp.reset(new RecursivePhaseSpace(c[0],t,&r)); else if(c.size()==1) tp.reset(new TreePhaseSpace(c[0],t,q)); else tp.reset(new TreePhaseSpace(c,t,q)); }
  Event operator()(){ return ps?ps->makeEvent():rp?rp->makeEvent():tp->makeEvent(); } };
struct W : World { EventType t{std::vector<std::string>{"D0","K+","pi-","pi0"}}; Generator<FakePS> g{t}; EventList l{t}; Draw r;
  W(){ FakePS::at=0; g.setRandom(&r); g.setBlockSize(4); }
  static J show(const EventList& l){ J a=J::mkarr(); for(auto& e: l) a.push(J::list({J(std::to_string((int)e[1])),J(std::to_string((int)e.weight())),frac(e.genPdf())})); return a; }
  J apply(const J& o) override {
    const std::string& f=o["f"].str();
    if(f=="dice"){ std::vector<double> w; double s=0; for(auto& x: o["ws"].a){ w.push_back(x.num()); s+=w.back(); } DiscreteDistribution d(w); size_t K=size_t(s)*w.size(); std::map<unsigned,int> n; Script r; for(size_t i=0;i<K;++i) r.u.push_back((i+.5)/K); for(size_t i=0;i<K;++i) n[d(&r)]++;
      J a=J::mkarr(),b=J::mkarr(); for(size_t i=0;i<w.size();++i){ a.push(J(std::to_string(n[i]))); n.erase(i); b.push(frac(d.probabilities().at(i))); } if(!n.empty()) for(auto& x: n) if(x.second) return J("index out of range"); if(d.max()!=w.size()-1||d.min()!=0) return J("bounds"); return J::list({a,b}); }
    if(f=="block"){ g.setBlockSize(o["n"].num()); return J("ok"); }
    if(f=="norm"){ g.setNormFlag(o["v"].boolean()); return J("ok"); }
    if(f=="fill"){ FakePdf pdf; g.fillEventList(pdf,l,o["n"].num()); return show(l); }
    if(f=="make"){ FakePdf pdf; return show(g.generate(pdf,size_t(o["n"].num()))); }
    if(f=="raw") return show(g.generate(size_t(o["n"].num())));
    if(f=="kin"){ Maker m(o); std::vector<Event> es; int n=o["n"].num(); const std::string& how=o["how"].str(); bool tree=m.tp!=nullptr;
      if(how=="py"){ std::string s; for(auto& x: o["t"].a) s+=(s.empty()?"":" ")+x.str(); std::vector<double> v(4*m.t.size()*n+1,-7.); python__generate(s.c_str(),v.data(),n); if(v.back()!=-7.) return J("beyond the array"); for(int i=0;i<n;++i){ Event e(4*m.t.size()); for(unsigned k=0;k<e.size();++k) e[k]=v[i*e.size()+k]; es.push_back(e); } }
      else if(how!="gen") for(int i=0;i<n;++i){ Event e=m(); if(!tree&&e.genPdf()!=1) return J("density"); if(tree&&!(e.genPdf()>0)) return J("density"); es.push_back(e); }
      else { Generator<PhaseSpace> g(m.t); g.setRandom(&m.r); auto l=g.generate(size_t(n)); if(l.size()!=size_t(n)) return J("number of events"); for(auto& e: l) es.push_back(e); }
      for(auto& e: es){ auto s=wrong(e,m.t,o["qs"]); if(!s.empty()) return J(s); } 
      for(size_t i=1;i<es.size();++i){ bool same=true; for(unsigned k=0;k<es[i].size();++k) same&=es[i][k]==es[i-1][k]; if(same) return J("repeated event"); } return J("ok"); }
    if(f=="flat"){ Maker m(o); auto mass=masses(m.t); unsigned N=mass.size(); const int B=10; double M=m.t.motherMass(); long n=o["n"].num(); bool tree=m.tp!=nullptr,td=m.t.isTimeDependent(),fixed=o["qs"].size()>0; double tau=td?ParticlePropertiesList::get(m.t.mother())->lifetime():1;
      // marginal of the invariant mass of all but one particle, in bins of equal probability, and isotropy of that particle
      std::vector<std::vector<double>> edge(N); for(unsigned k=0;k<N;++k){ std::vector<double> r; for(unsigned i=0;i<N;++i) if(i!=k) r.push_back(mass[i]); r.push_back(mass[k]); double lo=0; for(unsigned i=0;i+1<N;++i) lo+=r[i]; double hi=M-mass[k]; 
        if(N==2||fixed){ continue; } const int Q=600; std::vector<double> c{0}; std::vector<double> sub(r.begin(),r.end()-1); for(int i=0;i<Q;++i){ double mu=lo+(hi-lo)*(i+.5)/Q; double x=q2(M,mu,mass[k]); c.push_back(c.back()+(x>0?2*mu*std::sqrt(x)*vol(mu,sub):0)); }
        for(int b=1;b<B;++b){ double want=c.back()*b/B; int i=std::upper_bound(c.begin(),c.end(),want)-c.begin(); double fr=(want-c[i-1])/(c[i]-c[i-1]); edge[k].push_back(lo+(hi-lo)*(i-1+fr)/Q); } }
      std::map<std::string,std::pair<std::vector<double>,std::vector<double>>> h; double sw=0,sw2=0; auto fill=[&](const std::string& s,int b,double w){ auto& x=h[s]; if(x.first.empty()){ x.first.resize(B); x.second.resize(B); } b=std::max(0,std::min(B-1,b)); x.first[b]+=w; x.second[b]+=w*w; };
      for(long i=0;i<n;++i){ Event e=m(); double w=tree?1/e.genPdf():1; sw+=w; sw2+=w*w; if(td) fill("time",int(-std::expm1(-e[4*N]/tau)*B),w);

        for(unsigned k=0;k<N;++k){ std::string id=std::to_string(k); std::vector<int> r; for(unsigned j=0;j<N;++j) if(j!=k) r.push_back(j); auto p=sum(e,{int(k)}); double pp=std::sqrt(p[0]*p[0]+p[1]*p[1]+p[2]*p[2]);
          if(N>2&&!fixed){ double mu=std::sqrt(std::max(0.,m2(sum(e,r)))); fill("mass without "+id,std::upper_bound(edge[k].begin(),edge[k].end(),mu)-edge[k].begin(),w); }
          fill("cos of "+id,int((p[2]/pp+1)/2*B),w); fill("phi of "+id,int((std::atan2(p[1],p[0])/M_PI+1)/2*B),w);
          // angle of the decay of the rest: particle r[0] in the frame of the rest, against the direction of k
          if(N==3&&!fixed){ double s=m2(sum(e,r)),ma=mass[r[0]],mb=mass[r[1]],mu=std::sqrt(s); double Ea=(s+ma*ma-mb*mb)/(2*mu),pa=std::sqrt(std::max(0.,Ea*Ea-ma*ma)); double Ek=(M*M-s-mass[k]*mass[k])/(2*mu),pk=std::sqrt(std::max(0.,Ek*Ek-mass[k]*mass[k])); double sak=m2(sum(e,{r[0],int(k)})); double c=(sak-ma*ma-mass[k]*mass[k]-2*Ea*Ek)/(-2*pa*pk); fill("helicity with "+id,int((c+1)/2*B),w); } } }
      J bad=J::mkarr(); for(auto& x: h) for(int b=0;b<B;++b){ double want=sw/B,var=x.second.first.empty()?0:x.second.second[b]+sw2/B/B; if(std::fabs(x.second.first[b]-want)>6*std::sqrt(var)+0.004*want){ bad.push(J(x.first)); break; } }
      return bad; }
    throw std::logic_error("vjson op "+f);
  }
};
std::unique_ptr<World> makeWorld(){ return std::unique_ptr<World>(new W); }
