// Common harness driver: scenario registry and main().
#pragma once
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <utility>
#include <Kokkos_Core.hpp>
namespace sx {
  typedef void (*Fn)();
  struct Scn { const char* name; Fn fn; };
  inline std::vector<Scn>& reg(){ static std::vector<Scn> r; return r; }
  struct Reg { Reg(const char* n, Fn f){ reg().push_back(Scn{n,f}); } };
  inline std::string nm(const char* p, long i){ return std::string(p)+std::to_string(i); }
  inline std::string nm(const char* p, long i, long j){ return std::string(p)+std::to_string(i)+"_"+std::to_string(j); }
  inline std::string nm(const char* p, long i, long j, long k){ return std::string(p)+std::to_string(i)+"_"+std::to_string(j)+"_"+std::to_string(k); }
  inline double real(const std::string& n,double lo,double hi){ return sx_real(n.c_str(),lo,hi); }
  inline int int32(const std::string& n,int lo,int hi){ return sx_int32(n.c_str(),lo,hi); }
  inline void eq(const std::string& l,double a,double b){ sx_check_eq(l.c_str(),a,b); }
  inline void le(const std::string& l,double a,double b){ sx_check_le(l.c_str(),a,b); }
  inline void ok(const std::string& l,bool a){ sx_check(l.c_str(),a); }
  inline void ieq(const std::string& l,long a,long b){ sx_check_ieq(l.c_str(),a,b); }
  inline bool thorough(){ const char* t=getenv("VERIF_TIER"); return t && !strcmp(t,"thorough"); }
  template<class F> inline bool throws(F f){ try { f(); } catch(const std::exception&){ return true; } catch(...){ return true; } return false; }
  inline void deriv(const std::string& l,double d,double f,double v){ sx_check_deriv(l.c_str(),d,f,v); }
}
#define SX_SCENARIO(name) static void scn_##name(); static sx::Reg reg_##name(#name,scn_##name); static void scn_##name()
#define SX_TSCENARIO(name,fn) static sx::Reg reg_##name(#name,fn);
int main(int argc,char** argv){
  if(argc>1 && !strcmp(argv[1],"--list")){ for(auto& s:sx::reg()) printf("%s\n",s.name); return 0; }
  Kokkos::initialize(argc,argv);
  for(auto& s:sx::reg()) if(argc>1 && !strcmp(argv[1],s.name)){
    try { s.fn(); } catch(const std::exception& e){ fprintf(stderr,"uncaught: %s\n",e.what()); sx_check("no_uncaught_exception",false); }
    catch(...){ sx_check("no_uncaught_exception",false); }
    sx_finish();
  }
  return 3;
}
