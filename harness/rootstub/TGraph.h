#pragma once
#include <utility>
#include <vector>
class TGraph { public: std::vector<std::pair<double,double>> p; int GetN()const{return p.size();} void SetPoint(int i,double x,double y){ if(i>=(int)p.size())p.resize(i+1); p[i]={x,y}; } };
