// Helpers shared by the element-kernel harnesses: symbolic worksets, Voigt indices, "nothing else changed" assertions.
#pragma once
#include "sxmain.hpp"
#include "PlatoStaticsTypes.hpp"
using namespace Plato;
static const int NC=3, C=1;   // cells in the workset, cell operated on
#define SC(name,...) static void fn_##name(){ __VA_ARGS__; } SX_TSCENARIO(name,fn_##name)
template<int D> struct Vg { static const int N = D==3?6:(D==2?3:1); static int of(int i,int j){ if(i==j) return i; if(D==2) return 2; int s=i+j; return s==3?3:(s==2?4:5); } };
inline ScalarMultiVector mv(const char* n,int c,int k,double lo=-10,double hi=10){ ScalarMultiVector v(std::string(n),c,k); for(int i=0;i<c;i++)for(int j=0;j<k;j++) v(i,j)=sx::real(sx::nm((std::string(n)+"_").c_str(),i,j),lo,hi); return v; }
inline ScalarArray3D m3(const char* n,int c,int k,int l,double lo=-10,double hi=10){ ScalarArray3D v(std::string(n),c,k,l); for(int i=0;i<c;i++)for(int j=0;j<k;j++)for(int m=0;m<l;m++) v(i,j,m)=sx::real(sx::nm((std::string(n)+"_").c_str(),i,j,m),lo,hi); return v; }
inline ScalarVector sv(const char* n,int c,double lo=-10,double hi=10){ ScalarVector v(std::string(n),c); for(int i=0;i<c;i++) v(i)=sx::real(sx::nm((std::string(n)+"_").c_str(),i),lo,hi); return v; }
// what an entry held before the call (asking again for an input of the same name gives the same symbol)
inline double was(const char* n,int i,int j,double lo=-10,double hi=10){ return sx::real(sx::nm((std::string(n)+"_").c_str(),i,j),lo,hi); }
inline double was1(const char* n,int i,double lo=-10,double hi=10){ return sx::real(sx::nm((std::string(n)+"_").c_str(),i),lo,hi); }
// everything but cell C is unchanged
inline void others(const char* n,const ScalarMultiVector& v,double lo=-10,double hi=10){ for(size_t i=0;i<v.extent(0);i++) if(i!=C) for(size_t j=0;j<v.extent(1);j++) sx::eq(sx::nm((std::string("other_")+n).c_str(),i,j),v(i,j),was(n,i,j,lo,hi)); }
inline void others1(const char* n,const ScalarVector& v,double lo=-10,double hi=10){ for(size_t i=0;i<v.extent(0);i++) if(i!=C) sx::eq(sx::nm((std::string("other_")+n).c_str(),i),v(i),was1(n,i,lo,hi)); }
// an input that the call must not modify
inline void kept(const char* n,const ScalarMultiVector& v,double lo=-10,double hi=10){ for(size_t i=0;i<v.extent(0);i++) for(size_t j=0;j<v.extent(1);j++) sx::eq(sx::nm((std::string("kept_")+n).c_str(),i,j),v(i,j),was(n,i,j,lo,hi)); }
inline void kept1(const char* n,const ScalarVector& v,double lo=-10,double hi=10){ for(size_t i=0;i<v.extent(0);i++) sx::eq(sx::nm((std::string("kept_")+n).c_str(),i),v(i),was1(n,i,lo,hi)); }
