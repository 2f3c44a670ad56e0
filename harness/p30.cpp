// Propagation of uncertainties (P30).
#include "driver.h"
#include "AmpGen/ErrorPropagator.h"
#include "AmpGen/FitResult.h"
#include "AmpGen/MinuitParameterSet.h"
#include <TRandom3.h>
#include <cmath>
using namespace AmpGen;
int verif_chunk=500;
static J show(double y){ double k=std::round(y); if(std::isfinite(y)&&std::fabs(y-k)<=1e-6*std::max(1.,std::fabs(k))&&std::fabs(y-k)<0.3&&std::fabs(k)<1e9) return J((long long)k); return J(std::to_string(y)); }
struct Script: TRandom3 { std::vector<double> v; size_t i=0; double Gaus(double m=0,double s=1) override { return m+s*v[i++%v.size()]; } };
struct W: World { std::unique_ptr<MinuitParameterSet> ps; std::unique_ptr<LinearErrorPropagator> lp;
  std::vector<double> at(){ std::vector<double> v; for(auto& p: *ps) v.push_back(p->mean()); return v; }
  J values(){ J o=J::mkarr(); for(auto& p: *ps) o.push(show(p->mean())); return o; }
  std::vector<double> last;
  std::function<double(void)> fun(const J& fn){ return [this,fn]{ double r=0; for(size_t k=0;k<ps->size();++k){ double v=ps->at(k)->mean(); r+=double(fn["l"].a[k].num())*v+double(fn["q"].a[k].num())*v*v; if(k+1<ps->size()) r+=double(fn["m"].a[k].num())*v*ps->at(k+1)->mean(); } last=at(); return r; }; }
  static J mat(const TMatrixD& m){ J o=J::mkarr(); for(int i=0;i<m.GetNrows();++i){ J r=J::mkarr(); for(int j=0;j<m.GetNcols();++j) r.push(show(m(i,j))); o.push(r); } return o; }
  static TMatrixD tm(const J& c){ size_t n=c.size(); TMatrixD m(n,n); for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j) m(i,j)=c.a[i].a[j].num(); return m; }
  std::vector<MinuitParameter*> list(const J& ks){ std::vector<MinuitParameter*> v; for(auto& k: ks.a) v.push_back(ps->at(size_t(k.num()-1))); return v; }
  LinearErrorPropagator make(const J& o){ std::string h=o["how"].str(); if(h=="set") return LinearErrorPropagator(*ps); if(h=="list") return LinearErrorPropagator(list(o["ks"])); if(h=="cov") return LinearErrorPropagator(tm(o["c"]),list(o["ks"])); FitResult r(*ps,tm(o["c"])); return r.getErrorPropagator(o["ext"].b); }
  J shown(){ J n=J::mkarr(); for(auto& p: lp->params()) n.push(J(p->name())); if(lp->size()!=lp->params().size()) n.push(J("differs")); size_t i=0; for(auto& p: lp->params()) if(lp->posMap().at(p->name())!=i++) n.push(J("position")); return J::list({n,mat(lp->cov())}); }
  J centre(){ return J(last.empty()||last==at()?1:0); }
  J apply(const J& op) override { std::string f=op["f"].str(); std::vector<std::function<double(void)>> fs; if(op.has("fns")) for(auto& g: op["fns"].a) fs.push_back(fun(g)); last.clear();
    if(f=="set"){ lp.reset(); ps=std::make_unique<MinuitParameterSet>(); for(auto& p: op["ps"].a) ps->add(new MinuitParameter(p["n"].str(),parse<Flag>(p["f"].str()),p["v"].num(),p["st"].num())); return values(); }
    if(f=="make"){ lp=std::make_unique<LinearErrorPropagator>(make(op)); return shown(); }
    if(f=="add"){ lp->add(make(op["of"])); return shown(); }
    if(f=="reset"){ lp->reset(); return J((int)lp->size()); }
    if(f=="error"){ auto g=fun(op["fn"]); double e=(*lp)(g), e2=lp->getError(g); J c=centre(); return J::list({e==e2?show(e*e):J("differs"),values(),c}); }
    if(f=="vector"){ auto e=lp->getVectorError([&]{ std::vector<double> v; for(auto& g: fs) v.push_back(g()); return v; },fs.size()); J o=J::mkarr(); for(auto x: e) o.push(show(x*x)); J c=centre(); return J::list({o,values(),c}); }
    if(f=="covariance"){ auto c=lp->covarianceMatrix(fs); return J::list({mat(c),values()}); }
    if(f=="correlation"){ auto c=lp->covarianceMatrix(fs), r=lp->correlationMatrix(fs); for(int i=0;i<c.GetNrows();++i) for(int j=0;j<c.GetNcols();++j) r(i,j)*=std::sqrt(c(i,i)*c(j,j)); return J::list({mat(r),values()}); }
    if(f=="combine"){ double d=op["den"].num(); auto r=lp->combinationCovWeighted(fs); auto w=lp->combinationWeights(fs); return J::list({show(r.first*d),show(r.second*r.second*d),show(w.at(0)*d),show(w.at(1)*d)}); }
    if(f=="gauss"){ Script t; for(auto& x: op["g"].a) t.v.push_back(x.num()); GaussErrorPropagator g(tm(op["c"]),list(op["ks"]),&t); g.perturb(); J a=values(); g.perturb(); J b=values(); g.reset(); return J::list({a,b,values()}); }
    throw std::logic_error("vjson op"); } };
std::unique_ptr<World> makeWorld(){ return std::make_unique<W>(); }
