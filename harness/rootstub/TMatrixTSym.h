#pragma once
#include "rootstub.h"
template<class T> class TMatrixTSym : public TMatrixD { public: TMatrixTSym(int n=0):TMatrixD(n,n){} };
