// Minimal stand-ins for the few CERN ROOT types that AmpGen's sources name.  ROOT is not installed in
// this sandbox; these let the harness compile the ROOT-dependent translation units whose *logic* does
// not depend on ROOT (expression parsing, event types, event lists, coherent sums, ...).
#ifndef VERIF_ROOTSTUB_H
#define VERIF_ROOTSTUB_H
#include <string>
#include <vector>
#include <random>
#include <cmath>
#include <cstdint>
#include <iostream>
typedef double Double_t; typedef int Int_t; typedef bool Bool_t; typedef float Float_t; typedef unsigned UInt_t; typedef long long Long64_t; typedef unsigned long long ULong64_t; typedef unsigned char UChar_t; typedef short Short_t; typedef unsigned short UShort_t;
typedef char Char_t;
typedef const char Option_t;
enum EColor { kWhite=0, kBlack=1, kRed=632, kGreen=416, kBlue=600, kGray=920 };
class TRandom {
  std::mt19937_64 m;
 public:
  TRandom(unsigned s=4357):m(s){}
  virtual ~TRandom()=default;
  void SetSeed(unsigned s=0){ m.seed(s); }
  virtual double Rndm(){ return (double(m()>>11)+0.5)/9007199254740992.0; }
  double Uniform(double a=0,double b=1){ if(b==1&&a!=0&&a!=1&&false) return a; return a+(b-a)*Rndm(); }
  double Uniform1(double b){ return b*Rndm(); }
  double Exp(double tau){ return -tau*std::log(Rndm()); }
  virtual double Gaus(double mu=0,double s=1){ double u=Rndm(),v=Rndm(); return mu+s*std::sqrt(-2*std::log(u))*std::cos(2*M_PI*v); }
  unsigned Integer(unsigned n){ return unsigned(n*Rndm()); }
  int Poisson(double mu){ std::poisson_distribution<int> d(mu); return d(m); }
  void RndmArray(int n,double*a){ for(int i=0;i<n;++i)a[i]=Rndm(); }
};
class TRandom3 : public TRandom { public: using TRandom::TRandom; };
inline TRandom* verif_gRandom(){ static TRandom r; return &r; }
#define gRandom (verif_gRandom())
class TObject { public: virtual ~TObject()=default; virtual const char* GetName() const { return ""; } virtual const char* GetTitle() const { return ""; } };
class TAxis { public: void SetTitle(const char*){} int FindBin(double){return 0;} void SetLimits(double,double){} void SetTitleOffset(double){} double GetBinLowEdge(int)const{return 0;} };
class TH1 : public TObject { public:
  TAxis ax; std::string n;
  TH1(const char* nm="",const char* ="",int=1,double=0,double=1):n(nm){}
  TAxis* GetXaxis(){return &ax;} TAxis* GetYaxis(){return &ax;}
  void SetMinimum(double){} void SetMaximum(double){} void SetLineColor(int){} void SetMarkerSize(double){} void SetMarkerColor(int){} void SetFillColor(int){} void SetFillStyle(int){} void SetDrawOption(const char*){} void SetOption(const char*){}
  int Fill(double,double=1){return 0;} double GetEntries()const{return 0;} double Integral()const{return 0;} void Scale(double){}
  int GetNbinsX()const{return 0;} double GetBinContent(int)const{return 0;} double GetBinCenter(int)const{return 0;} void SetBinContent(int,double){} void SetBinError(int,double){}
  double GetBinError(int)const{return 0;} int FindBin(double)const{return 0;} double Interpolate(double)const{return 0;} void Add(const TH1*,double=1){} int Write(const char* =""){return 0;} void SetTitle(const char*){} void SetName(const char*){}
  const char* GetName() const override { return n.c_str(); }
};
class TH1D : public TH1 { public: using TH1::TH1; }; class TH1F : public TH1 { public: using TH1::TH1; };
class TH2 : public TH1 { public: TH2(const char* nm="",const char* t="",int a=1,double b=0,double c=1,int=1,double=0,double=1):TH1(nm,t,a,b,c){} int Fill(double,double,double=1){return 0;} };
class TH2D : public TH2 { public: using TH2::TH2; }; class TH2F : public TH2 { public: using TH2::TH2; };
class TList { public: int GetEntries()const{return 0;} TObject* At(int)const{return nullptr;} TObject* Last()const{return nullptr;} };
class THStack : public TObject { public: THStack(const char* ="",const char* =""){} void Add(TH1*,const char* =""){} int Write(const char* =""){return 0;} TList* GetHists(){static TList l;return &l;} void SetName(const char*){} void SetTitle(const char*){} };
class TLeaf : public TObject { public: const char* GetTypeName()const{return "Double_t";} };
class TObjArray : public std::vector<TObject*> { };
class TEventList : public TObject { public: int GetN()const{return 0;} long GetEntry(int)const{return 0;} };
class TBranch : public TObject { };
class TTree : public TObject { public:
  TTree(const char* ="",const char* =""){}
  TObjArray* GetListOfBranches(){ static TObjArray a; return &a; }
  void SetBranchStatus(const char*,bool,unsigned* =nullptr){} int SetBranchAddress(const char*,void*){return 0;} int ResetBranchAddresses(){return 0;} long GetEntries()const{return 0;} long GetEntry(long){return 0;}
  template<class T> TBranch* Branch(const char*,T*){return nullptr;} template<class T> TBranch* Branch(const char*,T*,const char*){return nullptr;}
  int Fill(){return 0;} long Draw(const char*,const char*){return 0;} TLeaf* GetLeaf(const char*){return nullptr;}
  template<class T> int SetBranchAddress(const char*,T*){return 0;} int Write(const char* =""){return 0;}
};
class TDirectory : public TObject { public: TObject* Get(const char*){return nullptr;} };
class TFile : public TDirectory { public: TFile(const char* ="",const char* =""){} static TFile* Open(const char*,const char* ="READ"){return nullptr;} void Close(){} void cd(){} };
inline TFile*& verif_gFile(){ static TFile* f=nullptr; return f; }
#define gFile (verif_gFile())
inline TDirectory*& verif_gDir(){ static TDirectory d; static TDirectory* p=&d; return p; }
#define gDirectory (verif_gDir())

class TMatrixTBaseD {}; 
template<class T> class TVectorT { public: std::vector<T> v; TVectorT(int n=0):v(n){} T& operator()(int i){return v[i];} T operator()(int i)const{return v[i];} T& operator[](int i){return v[i];} T operator[](int i)const{return v[i];} int GetNrows()const{return v.size();} };
class TMatrixD { int r,c; std::vector<double> m; public:
  enum EMatrixCreatorsOp1 { kZero, kUnit, kTransposed, kInverted };
  TMatrixD(int a=0,int b=0):r(a),c(b),m(size_t(a)*b){}
  TMatrixD(EMatrixCreatorsOp1,const TMatrixD&o):r(o.c),c(o.r),m(o.m.size()){ for(int i=0;i<r;++i)for(int j=0;j<c;++j)(*this)(i,j)=o(j,i);} 
  double& operator()(int i,int j){return m[size_t(i)*c+j];} double operator()(int i,int j)const{return m[size_t(i)*c+j];}
  double* operator[](int i){return &m[size_t(i)*c];} const double* operator[](int i)const{return &m[size_t(i)*c];}
  TMatrixD& operator*=(double f){for(auto&x:m)x*=f;return *this;} int GetNrows()const{return r;} int GetNcols()const{return c;} int GetNoElements()const{return r*c;} void ResizeTo(int a,int b){ std::vector<double> n(size_t(a)*b,0); for(int i=0;i<a&&i<r;++i)for(int j=0;j<b&&j<c;++j)n[size_t(i)*b+j]=m[size_t(i)*c+j]; r=a;c=b;m=n;} 
  TMatrixD& Invert(double* =nullptr){ TMatrixD a=*this; for(int i=0;i<r;++i)for(int j=0;j<r;++j)(*this)(i,j)=i==j; for(int k=0;k<r;++k){ int p=k; for(int i=k+1;i<r;++i)if(std::fabs(a(i,k))>std::fabs(a(p,k)))p=i; for(int j=0;j<r;++j){std::swap(a(k,j),a(p,j));std::swap((*this)(k,j),(*this)(p,j));} double d=a(k,k); for(int j=0;j<r;++j){a(k,j)/=d;(*this)(k,j)/=d;} for(int i=0;i<r;++i)if(i!=k){double f=a(i,k); for(int j=0;j<r;++j){a(i,j)-=f*a(k,j);(*this)(i,j)-=f*(*this)(k,j);}} } return *this;} TMatrixD& T(){return *this;} void Print(const char* ="")const{} double Determinant()const{return 0;} int Write(const char* =""){return 0;}
  friend TMatrixD operator*(const TMatrixD&a,const TMatrixD&b){ TMatrixD o(a.r,b.c); for(int i=0;i<a.r;++i)for(int j=0;j<b.c;++j){double s=0;for(int k=0;k<a.c;++k)s+=a(i,k)*b(k,j);o(i,j)=s;}return o;}
  friend TVectorT<double> operator*(const TMatrixD&a,const TVectorT<double>&b){ TVectorT<double> o(a.r); for(int i=0;i<a.r;++i){double s=0;for(int k=0;k<a.c;++k)s+=a(i,k)*b(k);o(i)=s;}return o;}
};
inline double operator*(const TVectorT<double>&a,const TVectorT<double>&b){double s=0;for(size_t i=0;i<a.v.size();++i)s+=a.v[i]*b.v[i];return s;}
inline TVectorT<double> operator+(const TVectorT<double>&a,const TVectorT<double>&b){TVectorT<double> o(a.v.size());for(size_t i=0;i<a.v.size();++i)o.v[i]=a.v[i]+b.v[i];return o;}
inline double Dot(const TVectorT<double>&a,const TVectorT<double>&b){return a*b;}
class TDecompChol { TMatrixD u; public: TDecompChol(const TMatrixD& a):u(a){} bool Decompose(){ int n=u.GetNrows(); TMatrixD a=u,l(n,n); for(int j=0;j<n;++j)for(int i=j;i<n;++i){ double s=a(i,j); for(int k=0;k<j;++k)s-=l(i,k)*l(j,k); l(i,j)=i==j?std::sqrt(s):s/l(j,j);} for(int i=0;i<n;++i)for(int j=0;j<n;++j)u(i,j)=l(j,i); return true;} TMatrixD GetU()const{return u;} };
class TVector3 { public: double fx,fy,fz; double x()const{return fx;} double y()const{return fy;} double z()const{return fz;} TVector3(double a=0,double b=0,double c=0):fx(a),fy(b),fz(c){} double operator()(int i)const{return (*this)[i];}
  TVector3 Cross(const TVector3&o)const{return {fy*o.fz-fz*o.fy,fz*o.fx-fx*o.fz,fx*o.fy-fy*o.fx};} double Dot(const TVector3&o)const{return fx*o.fx+fy*o.fy+fz*o.fz;} double Mag()const{return std::sqrt(Dot(*this));} double Mag2()const{return Dot(*this);} double Perp2()const{return fx*fx+fy*fy;} double Perp()const{return std::sqrt(Perp2());} double Theta()const{return std::atan2(Perp(),fz);} double Phi()const{return std::atan2(fy,fx);} double CosTheta()const{double m=Mag();return m==0?1:fz/m;} double Angle(const TVector3&o)const{double n=std::sqrt(Mag2()*o.Mag2());if(n<=0)return 0;double c=Dot(o)/n;return std::acos(c>1?1:c<-1?-1:c);} void SetXYZ(double a,double b,double c){fx=a;fy=b;fz=c;} TVector3& operator+=(const TVector3&o){fx+=o.fx;fy+=o.fy;fz+=o.fz;return *this;} TVector3& operator-=(const TVector3&o){fx-=o.fx;fy-=o.fy;fz-=o.fz;return *this;} TVector3& operator*=(double a){fx*=a;fy*=a;fz*=a;return *this;} TVector3 Unit()const{double m=Mag();return m==0?*this:TVector3(fx/m,fy/m,fz/m);} double X()const{return fx;} double Y()const{return fy;} double Z()const{return fz;} double Px()const{return fx;}double Py()const{return fy;}double Pz()const{return fz;}
  TVector3 operator-()const{return {-fx,-fy,-fz};} TVector3 operator+(const TVector3&o)const{return{fx+o.fx,fy+o.fy,fz+o.fz};} TVector3 operator-(const TVector3&o)const{return{fx-o.fx,fy-o.fy,fz-o.fz};} double operator*(const TVector3&o)const{return Dot(o);} friend TVector3 operator*(double a,const TVector3&o){return{a*o.fx,a*o.fy,a*o.fz};} TVector3 operator*(double a)const{return a*(*this);} double operator[](int i)const{return i==0?fx:i==1?fy:fz;} };
class TLorentzVector { public: double fx,fy,fz,ft; TLorentzVector(double a=0,double b=0,double c=0,double d=0):fx(a),fy(b),fz(c),ft(d){} TLorentzVector(const double*p):fx(p[0]),fy(p[1]),fz(p[2]),ft(p[3]){}
  TLorentzVector operator+(const TLorentzVector&o)const{return{fx+o.fx,fy+o.fy,fz+o.fz,ft+o.ft};} TLorentzVector& operator+=(const TLorentzVector&o){fx+=o.fx;fy+=o.fy;fz+=o.fz;ft+=o.ft;return *this;} TLorentzVector& operator-=(const TLorentzVector&o){fx-=o.fx;fy-=o.fy;fz-=o.fz;ft-=o.ft;return *this;} TLorentzVector operator-()const{return{-fx,-fy,-fz,-ft};} TLorentzVector operator*(double a)const{return{a*fx,a*fy,a*fz,a*ft};} double Beta()const{return P()/ft;} double Gamma()const{double b=Beta();return 1/std::sqrt(1-b*b);} double Rho()const{return P();} double Energy()const{return ft;} TLorentzVector operator-(const TLorentzVector&o)const{return{fx-o.fx,fy-o.fy,fz-o.fz,ft-o.ft};} double Dot(const TLorentzVector&o)const{return ft*o.ft-fx*o.fx-fy*o.fy-fz*o.fz;} double operator*(const TLorentzVector&o)const{return Dot(o);} double Mag2()const{return Dot(*this);} double M2()const{return Mag2();} double Mag()const{double m=Mag2();return m<0?-std::sqrt(-m):std::sqrt(m);} double M()const{return Mag();} double P()const{return Vect().Mag();} double E()const{return ft;} double Px()const{return fx;}double Py()const{return fy;}double Pz()const{return fz;} double X()const{return fx;}double Y()const{return fy;}double Z()const{return fz;}double T()const{return ft;} TVector3 Vect()const{return{fx,fy,fz};} TVector3 BoostVector()const{return{fx/ft,fy/ft,fz/ft};}
  void Boost(const TVector3&b){double b2=b.Mag2(),g=1/std::sqrt(1-b2),bp=b.fx*fx+b.fy*fy+b.fz*fz,g2=b2>0?(g-1)/b2:0; fx+=g2*bp*b.fx+g*b.fx*ft;fy+=g2*bp*b.fy+g*b.fy*ft;fz+=g2*bp*b.fz+g*b.fz*ft;ft=g*(ft+bp);} void Boost(double a,double b,double c){Boost(TVector3(a,b,c));} void Print()const{} double operator[](int i)const{return i==0?fx:i==1?fy:i==2?fz:ft;} void SetXYZT(double a,double b,double c,double d){fx=a;fy=b;fz=c;ft=d;} void SetPxPyPzE(double a,double b,double c,double d){SetXYZT(a,b,c,d);} };
namespace TMath { inline double ATan2(double a,double b){return std::atan2(a,b);} inline double ACos(double a){return std::acos(a);} inline double Pi(){return M_PI;} inline double Prob(double,int){return 0;} }
#endif
