// Concrete stand-in for the symbolic interface: every input takes one fixed value inside its range.
#pragma once
#include <cstring>
#include <string>
#include <vector>
#include <utility>
#include <functional>
#include <memory>
#include <map>
namespace sx {
  inline std::map<std::string,double>& over(){ static std::map<std::string,double> m; return m; }
  inline std::string nm(const char* p,long i){ return std::string(p)+std::to_string(i); }
  inline std::string nm(const char* p,long i,long j){ return nm(p,i)+"_"+std::to_string(j); }
  inline std::string nm(const char* p,long i,long j,long k){ return nm(p,i,j)+"_"+std::to_string(k); }
  inline double real(const std::string& n,double lo,double hi){ auto it=over().find(n); if(it!=over().end()) return it->second; unsigned h=2166136261u; for(char c:n) h=(h^(unsigned char)c)*16777619u; h^=h>>13; h*=0x5bd1e995u; h^=h>>15; return lo+(hi-lo)*((h%1000)+0.5)/1000.0; }
  inline int int32(const std::string&,int lo,int){ return lo; }
  inline void eq(const std::string& l,double a,double b){ near(l.c_str(),a,b,1e-8); }
  inline void ieq(const std::string& l,long a,long b){ near(l.c_str(),a,b,0); }
  inline void ok(const std::string& l,bool a){ expect(l.c_str(),a); }
  inline void deriv(const std::string&,double,double,double){}
  template<class F> inline bool throws(F f){ try { f(); } catch(...){ return true; } return false; }
}
inline void sx_assume(bool c){ if(!c){ std::fprintf(stderr,"point outside the assumed region\n"); std::exit(4); } }
namespace sx {
}
#define SX_TSCENARIO(n,f)
inline int sx_plain_zero(double a){ return a==0; }
