// Native implementation of the harness API, linked with the un-instrumented real code: used for replay.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <unistd.h>
#include <csignal>
static std::map<std::string,std::string>* In; static FILE*T;
static void fin(const char*w){fprintf(T,"END %s\n",w);fflush(T);fflush(stdout);_exit(0);}
static void onsig(int s){char b[32];snprintf(b,32,"signal%d",s);fin(b);}
extern "C" void sx_native_san_death(){ if(T){fprintf(T,"END sanitizer\n");fflush(T);} }
extern "C" void __sanitizer_set_death_callback(void(*)(void)) __attribute__((weak));
__attribute__((constructor)) static void ctor(){
  In=new std::map<std::string,std::string>;
  const char*t=getenv("SX_TRACE");T=fopen(t?t:"/dev/stdout","w"); if(!T)T=stderr;
  if(const char*f=getenv("SX_INPUT")){FILE*g=fopen(f,"r");char a[256],b[256];if(g){while(fscanf(g,"%255s %255s",a,b)==2)(*In)[a]=b;fclose(g);}}
  if(__sanitizer_set_death_callback)__sanitizer_set_death_callback(sx_native_san_death);
  else for(int s:{SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL})signal(s,onsig);
}
// Kokkos' own view bounds check (enabled for the native build) ends the run
#include <stdexcept>
namespace Kokkos { namespace Impl { void throw_runtime_exception(const std::string& m){ if(m.find("View bounds error")!=std::string::npos){ fprintf(stderr,"ERROR: %s\n",m.c_str()); fflush(stderr); fin("signal-view-bounds"); } throw std::runtime_error(m); } } }
static double hashv(const char*n){ uint64_t h=1469598103934665603ull;for(;*n;n++)h=(h^(unsigned char)*n)*1099511628211ull; h^=h>>29;h*=0xBF58476D1CE4E5B9ull;h^=h>>32; return ((h>>11)&((1ull<<40)-1))/(double)(1ull<<40);}
extern "C" {
double sx_real(const char*name,double lo,double hi){double v; auto it=In->find(name); if(it!=In->end())v=strtod(it->second.c_str(),0); else {v=lo+(hi-lo)*(0.05+0.9*hashv(name)); v=std::round(v*1024)/1024; if(v<lo||v>hi)v=lo+(hi-lo)*hashv(name);} fprintf(T,"I %s %.17g\n",name,v);return v;}
static int64_t iin(const char*name,int64_t lo){auto it=In->find(name);int64_t v=it!=In->end()?strtoll(it->second.c_str(),0,10):lo;fprintf(T,"I %s %lld\n",name,(long long)v);return v;}
int64_t sx_int(const char*n,int64_t lo,int64_t){return iin(n,lo);}
int sx_int32(const char*n,int lo,int){return (int)iin(n,lo);}
char sx_char(const char*n,int lo,int){return (char)iin(n,lo);}
void sx_assume(bool c){if(!c)fin("assume-false");}
void sx_check(const char*l,bool c){fprintf(T,"E k %s %d\n",l,(int)c);}
void sx_check_eq(const char*l,double a,double b){fprintf(T,"E e %s %.17g %.17g\n",l,a,b);}
void sx_check_le(const char*l,double a,double b){fprintf(T,"E l %s %.17g %.17g\n",l,a,b);}
void sx_check_ieq(const char*l,int64_t a,int64_t b){fprintf(T,"E i %s %lld %lld\n",l,(long long)a,(long long)b);}
void sx_check_deriv(const char*l,double d,double f,double v){fprintf(T,"E d %s %.17g %.17g %.17g\n",l,d,f,v);}
void sx_check_const(const char*l,double a){fprintf(T,"E q %s %.17g\n",l,a);}
int sx_plain_zero(double a){return a==0;}
int sx_is_symbolic(){return 0;}
void sx_finish(){fin("ok");}
}
