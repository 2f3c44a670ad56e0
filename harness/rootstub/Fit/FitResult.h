#pragma once
#include <map>
#include <string>
#include <utility>
#include <vector>
namespace ROOT { namespace Math { class Minimizer; } namespace Fit { class FitResult { public: virtual ~FitResult()=default; unsigned NPar()const{return fParams.size();} const std::vector<double>& Parameters()const{return fParams;} const std::vector<double>& Errors()const{return fErrors;} std::string ParName(unsigned i)const{return fParNames[i];} double CovMatrix(unsigned i,unsigned j)const{ return j<i?fCovMatrix[j+i*(i+1)/2]:fCovMatrix[i+j*(j+1)/2]; } int Status()const{return fStatus;} double MinFcnValue()const{return fVal;} bool IsValid()const{return fValid;} bool HasMinosError(unsigned i)const{return fMinosErrors.count(i);} double LowerError(unsigned i)const{return fMinosErrors.count(i)?fMinosErrors.at(i).first:fErrors[i];} double UpperError(unsigned i)const{return fMinosErrors.count(i)?fMinosErrors.at(i).second:fErrors[i];}
 protected: std::vector<double> fCovMatrix,fErrors,fParams; std::vector<std::string> fParNames; unsigned fNdf=0,fNCalls=0; int fCovStatus=0,fStatus=-1; double fEdm=-1,fVal=0; bool fValid=false; std::map<unsigned,std::pair<double,double>> fMinosErrors; }; } }
