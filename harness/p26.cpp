// Kinematics of events (P26): boosts, rotations, changes of basis and the angles and invariants of an event.
#include "driver.h"
#include "AmpGen/Event.h"
#include "AmpGen/Kinematics.h"
#include "TVector3.h"
#include "TLorentzVector.h"
#include <cmath>
using namespace AmpGen;
int verif_chunk=500;
static J show(double x,double n){ double y=x*n, k=std::round(y); if(std::isfinite(y)&&std::fabs(y-k)<=1e-9*std::max(1.,std::max(n,std::fabs(y)))*10&&std::fabs(y-k)<0.2) return J((long long)k); return J(std::to_string(y)); }
static J square(double c,double n){ return show(c*std::fabs(c),n); }
struct W: World { Event evt;
  static std::tuple<double,double,double> vec(const J& n){ return std::make_tuple(n.a[0].num(),n.a[1].num(),n.a[2].num()); }
  static TVector3 axis(const J& n){ return TVector3(n.a[0].num(),n.a[1].num(),n.a[2].num()); }
  J apply(const J& op) override { std::string f=op["f"].str(); auto& q=op["q"];
    if(f=="new"){ evt=Event(16); for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j) evt[4*i+j]=op["e"].a[i].a[j].num(); evt.extendEvent(7); }
    else if(f=="boost") boost(evt,vec(op["n"]),double(op["v"].a[0].num())/op["v"].a[1].num());
    else if(f=="rotate") rotate(evt,vec(op["n"]),std::atan2(op["s"].num(),op["c"].num()));
    else if(f=="basis") rotateBasis(evt,axis(op["b"].a[0]),axis(op["b"].a[1]),axis(op["b"].a[2]));
    else throw std::logic_error("vjson op");
    const Event& e=evt; J m=J::mkarr(); for(unsigned i=0;i<4;++i){ J p=J::mkarr(); for(unsigned j=0;j<4;++j) p.push(show(e[4*i+j],op["d"].num())); m.push(p); }
    using V=std::vector<unsigned>; J c=J::mkarr(), t=J::mkarr(), ph=J::mkarr();
    std::vector<double> cs{HelicityCosine(0,2,V{0,1})(e),HelicityCosine(V{0},V{1},V{0,1,2,3})(e),HelicityCosine(V{0,1},V{3},V{0,1,2,3})(e),HelicityCosine(V{1},V{0,3},V{2,1})(e),HelicityCosine(2,3,V{1,2,3})(e)};
    for(size_t k=0;k<cs.size();++k) c.push(square(cs[k],q.a[0].a[k].num()));
    std::vector<double> ts{MomentumTransfer(V{0},V{1})(e),MomentumTransfer(V{0,1},V{2,3})(e),MomentumTransfer(V{0,1,2},V{3})(e),MomentumTransfer(V{1,3},V{2})(e)};
    for(size_t k=0;k<ts.size();++k) t.push(square(ts[k],q.a[1].a[k].num()));
    auto angle=[](double x,double n){ double s=std::sin(x); return J::list({square(std::cos(x),n),J(std::fabs(s)<1e-9?0:s>0?1:-1)}); };
    std::vector<double> ps{phi(e,0,1,2,3),phi(e,0,2,1,3),phi(e,3,1,0,2)}; for(size_t k=0;k<ps.size();++k) ph.push(angle(ps[k],q.a[3].a[k].num()));
    auto PR=pFromEvent(e,V{0,1}), a=pFromEvent(e,0), b=pFromEvent(e,V{2}); double x=dotProduct(a,b,PR)/std::sqrt(dotProduct(a,a,PR)*dotProduct(b,b,PR)); if(std::fabs(x-cs[0])>1e-9) c.push(J("dot product"));
    std::vector<Event> l{e}; if(std::fabs(HelicityCosine(0,2,V{0,1})(l.begin())-cs[0])>1e-12) c.push(J("iterator"));
    return J::list({m,J::list({c,t,square(std::cos(acoplanarity(e)),q.a[2].num()),ph,angle(PHI(e),q.a[4].num())}),J((int)e[16])}); } };
std::unique_ptr<World> makeWorld(){ return std::make_unique<W>(); }
