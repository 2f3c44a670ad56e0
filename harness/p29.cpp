// Fits: the minimiser's parameters and outcome, the result of a fit and its files (P29).
#include "driver.h"
#include "AmpGen/ErrorPropagator.h"
#include "AmpGen/ExtendLikelihoodBase.h"
#include "AmpGen/FitFraction.h"
#include "AmpGen/FitResult.h"
#include "AmpGen/Minimiser.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Utilities.h"
#include <Math/Minimizer.h>
#include <TGraph.h>
#include <cmath>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace AmpGen;
int verif_chunk=500;
static J show(double y){ double k=std::round(y); if(std::isfinite(y)&&std::fabs(y-k)<=1e-6&&std::fabs(k)<1e9) return J((long long)k); return J(std::to_string(y)); }
struct W: World { std::unique_ptr<MinuitParameterSet> ps; std::unique_ptr<Minimiser> mini; std::unique_ptr<FitResult> res; std::unique_ptr<MinuitParameterSet> own; J fn; std::string file; std::vector<std::unique_ptr<ExtendLikelihoodBase>> terms;
  std::function<double(void)> f=[this]{ return value(); };
  W(){ static int n=0; file="./fit_"+std::to_string(::getpid())+"_"+std::to_string(n++); }
  ~W(){ ::unlink((file+".log").c_str()); ::unlink((file+".opt").c_str()); ::unlink((file+".in").c_str()); }
  double value(){ double r=0; for(size_t k=0;k<ps->size();++k){ double v=ps->at(k)->mean(); r+=double(fn["l"].a[k].num())*v+double(fn["q"].a[k].num())*v*v; if(k+1<ps->size()) r+=double(fn["m"].a[k].num())*v*ps->at(k+1)->mean(); } return r; }
  static J par(MinuitParameter* p){ return J::list({J(p->name()),J(to_string<Flag>(p->flag())),show(p->mean()),show(p->err()),show(p->errNeg()),show(p->errPos()),show(p->minInit()),show(p->maxInit())}); }
  static J pars(MinuitParameterSet& s){ J o=J::mkarr(); for(auto& p: s) o.push(par(p)); return o; }
  static J opts(MinuitParameterSet& s){ J o=J::mkarr(); for(auto& p: s) o.push(J::list({J(p->name()),J(to_string<Flag>(p->flag())),show(p->meanInit()),show(p->stepInit()),show(p->minInit()),show(p->maxInit())})); return o; }
  static J vars(ROOT::Math::Minimizer& m){ J o=J::mkarr(); for(auto& v: m.vars) o.push(J::list({J(v.name),show(v.v),show(v.step),v.limited?J::list({show(v.lo),show(v.hi)}):J::mkarr()})); return o; }
  template<class M> static J mat(const M& m){ J o=J::mkarr(); for(int i=0;i<m.GetNrows();++i){ J r=J::mkarr(); for(int j=0;j<m.GetNcols();++j) r.push(show(m(i,j))); o.push(r); } return o; }
  static std::vector<double> vec(const J& j){ std::vector<double> v; for(auto& x: j.a) v.push_back(x.num()); return v; }
  static void options(bool norm,bool minos){ OptionsParser::setArg("Minimiser::PrintLevel Quiet"); OptionsParser::setArg(std::string("Minimiser::Normalise ")+(norm?"1":"0")); OptionsParser::setArg(std::string("Minimiser::RunMinos ")+(minos?"1":"0")); }
  static J result(FitResult& r){ J cov=J::mkarr(), cor=J::mkarr(); auto p=r.parameters();
    for(size_t i=0;i<p.size();++i){ J a=J::mkarr(), b=J::mkarr(); for(size_t j=0;j<p.size();++j){ double c=r.cov(p[i]->name(),p[j]->name()); if(c!=r.cov(i,j)||c!=r.cov()(i,j)) a.push(J("differs")); else a.push(show(c)); double d=r.cov(i,i)*r.cov(j,j); b.push(d==0?J(0):show(r.correlation(p[i]->name(),p[j]->name())*std::sqrt(d))); } cov.push(a); cor.push(b); }
    J ob=J::mkarr(), fr=J::mkarr(); for(auto& o: r.observables()) ob.push(J::list({J(o.first),show(o.second)})); for(auto& x: r.fitFractions()) fr.push(J::list({J(x.name()),show(x.val()),show(x.err())}));
    return J::list({pars(*r.mps()),cov,cor,J::list({show(r.chi2()),J((int)r.nBins()),J((int)r.nParam()),show(r.LL()),J(r.status()),show(r.dof())}),ob,fr}); }
  J apply(const J& op) override { std::string f_=op["f"].str(); auto at=[&]{ return ps->at(size_t(op["k"].num()-1)); };
    if(f_=="set"){ res.reset(); mini.reset(); terms.clear(); ps=std::make_unique<MinuitParameterSet>(); for(auto& p: op["ps"].a) ps->add(new MinuitParameter(p["n"].str(),parse<Flag>(p["f"].str()),p["v"].num(),p["st"].num(),p["lo"].num(),p["hi"].num())); return pars(*ps); }
    if(f_=="minimiser"){ fn=op["fn"]; options(op["norm"].b,false); normal=op["norm"].b; terms.clear(); mini=std::make_unique<Minimiser>(f,ps.get()); return current(); }
    if(f_=="prepare"){ options(normal,false); mini->prepare(); return current(); }
    if(f_=="constrain"){ auto g=std::make_unique<GaussianConstraint>(); std::ostringstream s; s<<"GaussianConstraint "<<at()->name()<<" "<<op["m"].num()<<" "<<1./double(op["d"].num()); g->configure(s.str(),*ps); mini->addExtendedTerm(g.get()); terms.push_back(std::move(g)); return J(1); }
    if(f_=="flag"){ if(op["to"].str()=="Fix") at()->fix(); else at()->setFree(); return J(1); }
    if(f_=="value"){ at()->setVal(op["x"].num()); return J(1); }
    if(f_=="fit"){ J seen, fv=J::mkarr(); options(normal,op["minos"].size()!=0);
      ROOT::Math::verif_minimise()=[&](ROOT::Math::Minimizer& m){ seen=vars(m); for(auto& p: op["pts"].a){ auto x=vec(p); fv.push(show((*m.f)(x.data()))); } m.x=vec(op["x"]); m.err=vec(op["e"]); m.cov.clear(); for(auto& r: op["c"].a) for(auto& x: r.a) m.cov.push_back(x.num()); m.status=op["st"].num(); };
      ROOT::Math::verif_minos()=[&](ROOT::Math::Minimizer&,unsigned i,double& lo,double& hi){ lo=op["minos"].a[i].a[0].num(); hi=op["minos"].a[i].a[1].num(); };
      mini->doFit(); options(normal,false); return J::list({seen,fv,pars(*ps),J(mini->status()),show(mini->FCN()),mat(mini->covMatrix()),mat(mini->covMatrixFull())}); }
    if(f_=="minos"){ std::string n=at()->name(); bool bad=false; ROOT::Math::verif_minos()=[&](ROOT::Math::Minimizer& m,unsigned i,double& lo,double& hi){ if(m.vars[i].name!=n) bad=true; auto x=m.x; for(auto& y: x) y+=5; (*m.f)(x.data()); lo=op["lo"].num(); hi=op["hi"].num(); };
      mini->minos(at()); return bad?J("another parameter"):pars(*ps); }
    if(f_=="scan"){ auto* g=mini->scan(at(),op["a"].num(),op["b"].num(),1); J o=J::mkarr(); for(auto& p: g->p) o.push(J::list({show(p.first),show(p.second)})); delete g; return J::list({o,pars(*ps)}); }
    if(f_=="external"){ auto r=mini->fitResult(); J o=J::mkarr(), c=J::mkarr(); unsigned n=r.NPar(); for(unsigned i=0;i<n;++i){ o.push(J::list({J(r.ParName(i)),show(r.Parameters()[i]),show(r.Errors()[i]),r.HasMinosError(i)?J::list({show(r.LowerError(i)),show(r.UpperError(i))}):J::mkarr()})); J row=J::mkarr(); for(unsigned j=0;j<n;++j) row.push(show(r.CovMatrix(i,j))); c.push(row); } return J::list({o,c,J(r.Status()),show(r.MinFcnValue())}); }
    if(f_=="result"){ res=std::make_unique<FitResult>(*mini); return result(*res); }
    if(f_=="ofcov"){ size_t n=op["c"].size(); TMatrixD c(n,n); for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j) c(i,j)=op["c"].a[i].a[j].num(); res=std::make_unique<FitResult>(*ps,c); return result(*res); }
    if(f_=="note"){ res->addChi2(op["chi2"].num(),op["nb"].num()); for(auto& o: op["ob"].a) res->addObservable(o.a[0].str(),o.a[1].num()); for(auto& x: op["fr"].a) res->addFraction(x.a[0].str(),x.a[1].num(),x.a[2].num()); return result(*res); }
    if(f_=="copy"){ FitResult c(*res); return result(c); }
    if(f_=="reduced"){ bool e=op["ext"].b; auto fl=res->floating(e); auto c=res->getReducedCovariance(e); auto lp=res->getErrorPropagator(e); J n=J::mkarr(); for(size_t i=0;i<fl.size();++i) n.push(J(lp.params().at(i)==fl[i]?fl[i]->name():"differs")); return J::list({n,lp.size()==fl.size()&&lp.cov().GetNrows()==c.GetNrows()?mat(c):J("differs")}); }
    if(f_=="write"){ res->writeToFile(file+".log"); return J(1); }
    if(f_=="read"){ auto r=std::make_unique<FitResult>(file+".log"); res=std::move(r); own.reset(res->mps()); return result(*res); }
    if(f_=="options"){ res->writeOptions(file+".opt"); MinuitParameterSet s; s.loadFromFile(file+".opt"); return opts(s); }
    if(f_=="template"){ { std::ofstream o(file+".in"); for(auto& l: op["lines"].a){ if(l.a[0].str()!="par"){ for(size_t i=0;i<l.size();++i) o<<(i?" ":"")<<l.a[i].str(); } else if(l.size()==2) o<<l.a[1].str()<<" Free 99 1"; else { auto n=l.a[1].str(); o<<n.substr(0,n.size()-3)<<"   Free 7 1  Fix 8 2"; } o<<"\n\n"; } }
      std::ostringstream s; res->writeOptions(s,file+".in"); J out=J::mkarr(); std::istringstream in(s.str()); std::string line; size_t k=0; auto& L=op["lines"].a;
      while(std::getline(in,line)){ auto t=split(line,' '); if(t.empty()) continue; if(k<L.size()&&L[k].a[0].str()=="par"){ std::ofstream(file+".opt")<<line<<"\n"; MinuitParameterSet q; q.loadFromFile(file+".opt"); out.push(opts(q)); } else { J a=J::mkarr(); for(auto& x: t) a.push(J(x)); out.push(a); } ++k; }
      return out; }
    throw std::logic_error("vjson op"); }
  bool normal=false;
  // the variables as handed to the minimisation package
  J current(){ return vars(*ROOT::Math::Minimizer::last()); } };
std::unique_ptr<World> makeWorld(){ return std::make_unique<W>(); }
