// Symbolic runtime: hash-consed expression DAG, byte-granular shadow memory, trace output.
#include "sxops.h"
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <csignal>
#include <unistd.h>
#include <malloc.h>
#include <sys/mman.h>
typedef uint32_t u32; typedef uint64_t u64;
extern "C" {
u32 __sx_args[256]; void* __sx_argsp[256]; void* __sx_callee; u32 __sx_rets[64]; u32 __sx_retvalid;
}
static const char* kFuncs[] = SX_FUNCS;
static bool gOn=false; // runtime initialised
struct Node{int op,ty;u32 a,b;u64 c;u64 val;}; // c: const bits or extract offset; val concrete bits
static std::vector<Node>* N; 
struct Key{int op,ty;u32 a,b;u64 c;bool operator==(const Key&o)const{return op==o.op&&ty==o.ty&&a==o.a&&b==o.b&&c==o.c;}};
struct KH{size_t operator()(const Key&k)const{u64 h=k.op*1000003ull+k.ty;h=h*0x9E3779B97F4A7C15ull+k.a;h=(h^(h>>29))*0xBF58476D1CE4E5B9ull+k.b;h=(h^(h>>32))*0x94D049BB133111EBull+k.c;return h^(h>>31);}};
static std::unordered_map<Key,u32,KH>* H;
static FILE* T;
static std::map<std::string,std::string>* In;
static std::vector<std::string>* Prefix; static size_t pp=0; static long nev=0; static long maxev=4000;
static std::unordered_map<u32,int>* Decided;
static std::unordered_map<u32,u64>* DecidedC;
static std::unordered_set<const void*>* Cov; static std::vector<const char*>* CovL;
static std::map<std::string,long>* Leaks;
static std::unordered_set<u32>* Dumped;
static long nNodes=0; static long ops=0;
static double asD(u64 b){double d;__builtin_memcpy(&d,&b,8);return d;}
static u64 bD(double d){u64 b;__builtin_memcpy(&b,&d,8);return b;}
static double val(int ty,u64 b){ if(ty==1000)return asD(b); if(ty==1001){float f;u32 x=b;__builtin_memcpy(&f,&x,4);return f;} return 0;}
static bool same(int ty,u64 x,u64 y){ if(x==y)return true; if(ty>=1000){double a=val(ty,x),b=val(ty,y);return a==b||(a!=a&&b!=b);}
  u64 m=ty>=64?~0ull:((1ull<<ty)-1); return (x&m)==(y&m);}
static u32 mk(int op,int ty,u32 a,u32 b,u64 c,u64 v){
  Key k{op,ty,a,b,c};auto it=H->find(k);if(it!=H->end())return it->second;
  N->push_back({op,ty,a,b,c,v});u32 id=N->size()-1;(*H)[k]=id;return id;
}
static u32 cst(int ty,u64 bits){ if(ty==1001){bits=bD(val(1001,bits));ty=1000;} if(ty>=1000&&asD(bits)==0)bits=0; return mk(SX_CONST,ty,0,0,bits,bits);}
static bool isC(u32 n,double&v){ if((*N)[n].op==SX_CONST&&(*N)[n].ty>=1000){v=asD((*N)[n].c);return true;}return false;}
static void leak(u32 s,const char*w){ (*Leaks)[w]++; }
static void fin(const char*why);
// ---------- shadow memory
struct Cell{u32 e;unsigned char idx,sz;};
struct Page{Cell c[4096];};
static std::unordered_map<u64,Page*>* Pg;
static u64 lastp=~0ull;static Page*lastpg=0;
static bool gBusy=false; // the page table is being resized: its own frees are not application frees
static Page* page(u64 a,bool create){ u64 p=a>>12; if(p==lastp&&lastpg)return lastpg; auto it=Pg->find(p); if(it!=Pg->end()){lastp=p;return lastpg=it->second;} if(!create)return 0; Page*q=(Page*)calloc(1,sizeof(Page));gBusy=true;(*Pg)[p]=q;gBusy=false;lastp=p;lastpg=q;return q;}
static void clr(u64 a,u64 n){ if(!gOn||!n)return; u64 e=a+n; if(n>4096){ // page-wise
    while(a<e){u64 pe=(a|4095)+1;if(pe>e)pe=e;Page*p=page(a,false);if(p)for(u64 i=a;i<pe;i++)p->c[i&4095].e=0;a=pe;}return;}
  for(;a<e;){u64 pe=(a|4095)+1;if(pe>e)pe=e;Page*p=page(a,false);if(p)for(u64 i=a;i<pe;i++)p->c[i&4095].e=0;a=pe;}}
static void cpy(u64 d,u64 s,u64 n){ if(!gOn||!n||d==s)return;
  if(d<s||d>=s+n){ for(u64 i=0;i<n;i++){Page*ps=page(s+i,false);Cell c{0,0,0};if(ps)c=ps->c[(s+i)&4095];Page*pd=page(d+i,c.e!=0);if(pd)pd->c[(d+i)&4095]=c;} }
  else for(u64 i=n;i-->0;){Page*ps=page(s+i,false);Cell c{0,0,0};if(ps)c=ps->c[(s+i)&4095];Page*pd=page(d+i,c.e!=0);if(pd)pd->c[(d+i)&4095]=c;}}
static int tsz(int ty){return ty==1000?8:ty==1001?4:(ty+7)/8;}
// make sure an expression used as integer really is an integer
static bool isReal(u32 s){return (*N)[s].ty>=1000;}
extern "C" {
void __sx_clear(void*p,u64 n){ clr((u64)p,n);}
void __sx_store(void*p,int sz,u32 s){ if(!gOn)return; if(!s){clr((u64)p,sz);return;} u64 a=(u64)p; for(int i=0;i<sz;i++){Page*g=page(a+i,true);g->c[(a+i)&4095]=Cell{s,(unsigned char)i,(unsigned char)sz};}}
u32 __sx_load(void*p,int ty,u64 bits){
  if(!gOn)return 0; u64 a=(u64)p;int sz=tsz(ty); Page*g=page(a,false); 
  bool any=false; Cell c[8];
  for(int i=0;i<sz;i++){Page*q=((a+i)&4095)==0||!g?page(a+i,false):g; if(i&&((a+i)&4095)==0)g=q; c[i]=q?q->c[(a+i)&4095]:Cell{0,0,0}; if(c[i].e)any=true;}
  if(!any)return 0;
  u32 e=c[0].e; bool whole=e&&c[0].sz==sz; for(int i=0;i<sz&&whole;i++)if(c[i].e!=e||c[i].idx!=i)whole=false;
  if(whole){ if(same((*N)[e].ty>=1000&&ty<1000?1000:ty>=1000&&(*N)[e].ty<1000?(*N)[e].ty:ty, (*N)[e].val, ty==1001?bD(val(ty,bits)):bits))return e; 
     if((*N)[e].ty==1000&&ty==1001&&(float)asD((*N)[e].val)==(float)val(1001,bits))return e; return 0; }
  if(ty>=1000){leak(e,"mixed-load");return 0;}
  // integer load from bytes
  u32 acc=0;int accw=0;u64 accv=0;
  for(int i=sz-1;i>=0;i--){
    u32 b; u64 bv=(bits>>(8*i))&255;
    if(!c[i].e)b=cst(8,bv);
    else if((*N)[c[i].e].ty>=1000){leak(c[i].e,"byte-of-real");b=cst(8,bv);}
    else { Node&n=(*N)[c[i].e]; u64 nv=(n.val>>(8*c[i].idx))&255; if(nv!=bv)b=cst(8,bv); else b=(n.ty==8)?c[i].e:(n.ty<8?mk(SX_ZEXT,8,c[i].e,n.ty,0,bv):mk(SX_EXTRACT,8,c[i].e,0,8*c[i].idx,bv)); }
    if(!accw){acc=b;accw=8;accv=bv;}else{accv=(accv<<8)|bv;acc=mk(SX_CONCAT,accw+8,acc,b,0,accv);accw+=8;}
  }
  if(accw>ty)acc=mk(SX_TRUNC,ty,acc,0,0,bits);
  return acc;
}
void __sx_memcpy(void*d,const void*s,u64 n){ cpy((u64)d,(u64)s,n); unsigned char*a=(unsigned char*)d;const unsigned char*b=(const unsigned char*)s; asm volatile("rep movsb":"+D"(a),"+S"(b),"+c"(n)::"memory");}
void __sx_memmove(void*d,const void*s,u64 n){ cpy((u64)d,(u64)s,n); 
  unsigned char*a=(unsigned char*)d;const unsigned char*b=(const unsigned char*)s;
  if(a<b||a>=b+n)asm volatile("rep movsb":"+D"(a),"+S"(b),"+c"(n)::"memory"); else {a+=n-1;b+=n-1;asm volatile("std\n rep movsb\n cld":"+D"(a),"+S"(b),"+c"(n)::"memory");}}
void __sx_memset(void*d,u32 s,u64 n){ if(s){for(u64 i=0;i<n;i++)__sx_store((char*)d+i,1,s);}else clr((u64)d,n);}
// interposed for uninstrumented libraries
void* memcpy(void*d,const void*s,size_t n){__sx_memcpy(d,s,n);return d;}
void* memmove(void*d,const void*s,size_t n){__sx_memmove(d,s,n);return d;}
void* memset(void*d,int v,size_t n){ if(gOn)clr((u64)d,n); unsigned char*a=(unsigned char*)d;size_t m=n; asm volatile("rep stosb":"+D"(a),"+c"(m):"a"(v):"memory");return d;}
void __libc_free(void*);
void free(void*p){ if(p&&gOn&&!gBusy)clr((u64)p,malloc_usable_size(p)); __libc_free(p);}
u32 __sx_ret(int i,int ty,u64 bits){ if(!__sx_retvalid||!gOn)return 0; u32 s=__sx_rets[i]; if(!s)return 0; return same((*N)[s].ty,(*N)[s].val,ty==1001?bD(val(ty,bits)):bits)?s:0;}
void __sx_byval(void*d,void*s,u64 n){ if(s)cpy((u64)d,(u64)s,n);else clr((u64)d,n);}
void __sx_cover(const char*s){ if(!gOn)return; if(Cov->insert(s).second)CovL->push_back(s);}
void __sx_ext(u32 s,const char*n){ if(s&&gOn)(*Leaks)[std::string("ext:")+n]++; }
static bool cmpF(int p,double a,double b){switch(p&7){case 1:return a==b;case 2:return a>b;case 3:return a>=b;case 4:return a<b;case 5:return a<=b;case 6:return a!=b;}return true;}
u32 __sx_op2(int op,int ty,u32 sa,u32 sb,u64 a,u64 b,u64 r){
  if(!(sa|sb)||!gOn)return 0; ops++;
  bool fp=ty>=1000;
  if(fp&&ty==1001){a=bD(val(1001,a));b=bD(val(1001,b)); if(op<SX_FCMP||op>=SX_FUNC)r=bD(val(1001,r)); ty=1000;}
  // kind mismatch: real bits used as integer
  if(!fp&&((sa&&isReal(sa))||(sb&&isReal(sb)))){
    if(op==SX_ICMP+0||op==SX_ICMP+1){ if(sa==sb)return 0; }
    leak(sa?sa:sb,"int-op-on-real-bits"); return 0; }
  if(fp&&((sa&&!isReal(sa))||(sb&&!isReal(sb)))){leak(sa?sa:sb,"fp-op-on-int-bits");return 0;}
  u32 A=sa?sa:cst(ty,a),B=sb?sb:cst(ty,b); double ca,cb; bool ia=isC(A,ca),ib=isC(B,cb);
  if(op>=SX_FCMP&&op<SX_FCMP+16){
    int p=op-SX_FCMP; if(p==0||p==15||p==7||p==8)return 0; // ord/uno: reals are never NaN
    if((ia&&!std::isfinite(ca))||(ib&&!std::isfinite(cb)))return 0;
    if(A==B)return 0;
    p&=7; // ordered and unordered agree on reals
    // canonical: < , <=, ==, != only
    bool rv=cmpF(p,asD(a),asD(b));
    if(p==2){p=4;std::swap(A,B);} else if(p==3){p=5;std::swap(A,B);} else if((p==1||p==6)&&A>B)std::swap(A,B);
    // negations: a!=b -> not(a==b); b<=a -> not(a<b)
    if(p==6){u32 e=mk(SX_FCMP+1,1,A,B,0,!rv);return mk(SX_XOR,1,e,cst(1,1),0,rv);}
    if(p==5){u32 e=mk(SX_FCMP+4,1,B,A,0,!rv);return mk(SX_XOR,1,e,cst(1,1),0,rv);}
    return mk(SX_FCMP+p,1,A,B,0,rv);
  }
  if(op>=SX_ICMP&&op<SX_ICMP+10){ if(A==B)return 0; // b=ty stored in c
    // i1 compare with constant
    if(ty==1&&!sb){ if(op==SX_ICMP){ return (b&1)?A:mk(SX_XOR,1,A,cst(1,1),0,r);} if(op==SX_ICMP+1){return (b&1)?mk(SX_XOR,1,A,cst(1,1),0,r):A;} }
    return mk(op,1,A,B,ty,r); }
  switch(op){
    case SX_FADD: if(ia&&ca==0)return B; if(ib&&cb==0)return A; if(A>B)std::swap(A,B); break;
    case SX_FSUB: if(ib&&cb==0)return A; if(A==B)return 0; if(ia&&ca==0)return (*N)[B].op==SX_FNEG?(*N)[B].a:mk(SX_FNEG,ty,B,0,0,r); break;
    case SX_FMUL: if((ia&&ca==0)||(ib&&cb==0))return 0; if(ia&&ca==1)return B; if(ib&&cb==1)return A; 
      if(ia&&ca==-1)return (*N)[B].op==SX_FNEG?(*N)[B].a:mk(SX_FNEG,ty,B,0,0,r); if(ib&&cb==-1)return (*N)[A].op==SX_FNEG?(*N)[A].a:mk(SX_FNEG,ty,A,0,0,r); if(A>B)std::swap(A,B); break;
    case SX_FDIV: if(ib&&cb==1)return A; if(ia&&ca==0)return 0; break;
    case SX_ADD: if(!sa&&a==0)return sb; if(!sb&&b==0)return sa; if(A>B)std::swap(A,B); break;
    case SX_SUB: if(!sb&&b==0)return sa; if(A==B)return 0; break;
    case SX_MUL: if((!sa&&a==0)||(!sb&&b==0))return 0; if(!sa&&a==1)return sb; if(!sb&&b==1)return sa; if(A>B)std::swap(A,B);break;
    case SX_AND: if(A==B)return A; if((!sa&&a==0)||(!sb&&b==0))return 0; if(ty==1){if(!sa)return B;if(!sb)return A;} break;
    case SX_OR: if(A==B)return A; if(ty==1){ if(!sa)return (a&1)?0:B; if(!sb)return (b&1)?0:A; } if(!sa&&a==0)return sb; if(!sb&&b==0)return sa; break;
    case SX_XOR: if(A==B)return 0; if(!sa&&a==0)return sb; if(!sb&&b==0)return sa;
      if(ty==1&&!sb&&(b&1)&&(*N)[A].op==SX_XOR&&(*N)[(*N)[A].b].op==SX_CONST)return (*N)[A].a; break;
    case SX_SHL: case SX_LSHR: case SX_ASHR: if(!sb&&b==0)return sa; break;
    case SX_FUNC+1: if(ib&&cb==1)return A; if(ib&&cb==0)return 0; break; // pow
  }
  return mk(op,ty,A,B,0,r);
}
u32 __sx_op1(int op,int ty,u32 s,u64 a,u64 r,int sty){
  if(!s||!gOn)return 0; ops++;
  if(ty==1001){r=bD(val(1001,r));ty=1000;}
  if(op==SX_FNEG&&(*N)[s].op==SX_FNEG)return (*N)[s].a;
  if(sty<1000&&isReal(s)){leak(s,"int-cast-of-real-bits");return 0;}
  if(sty>=1000&&!isReal(s)){leak(s,"fp-op-on-int-bits");return 0;}
  if(op==SX_TRUNC){ Node&n=(*N)[s]; if((n.op==SX_ZEXT||n.op==SX_SEXT)&&(*N)[n.a].ty==ty)return n.a; }
  if(op>=SX_FUNC){ if(op==SX_FUNC+15){ // fabs
      if((*N)[s].op==SX_FUNC+15)return s; if((*N)[s].op==SX_FUNC+0)return s; if((*N)[s].op==SX_FNEG)return __sx_op1(op,ty,(*N)[s].a,(*N)[(*N)[s].a].val,r,sty);}
  }
  return mk(op,ty,s,op>=SX_TRUNC&&op<=SX_UITOFP?(u32)sty:0,0,r);
}
bool __sx_br(u32 s,bool c){
  if(!s||!gOn)return c;
  bool neg=false; while((*N)[s].op==SX_XOR&&(*N)[s].ty==1&&(*N)[(*N)[s].b].op==SX_CONST&&((*N)[(*N)[s].b].c&1)){s=(*N)[s].a;neg=!neg;c=!c;}
  auto it=Decided->find(s); if(it!=Decided->end())return (it->second!=0)!=neg;
  if(pp<Prefix->size()){ const std::string&p=(*Prefix)[pp++]; if(p[0]!='b'){fprintf(T,"DIVERGE\n");fin("diverge");} c=p[1]=='1'; }
  (*Decided)[s]=c;
  fprintf(T,"E b %u %d\n",s,(int)c); if(++nev>maxev)fin("maxevents");
  return c!=neg;
}
u64 __sx_conc(u32 s,int ty,u64 v){
  if(!s||!gOn)return v;
  if(isReal(s)){leak(s,"conc-real");return v;}
  auto it=DecidedC->find(s); if(it!=DecidedC->end())return it->second;
  if(pp<Prefix->size()){ const std::string&p=(*Prefix)[pp++]; if(p[0]!='c'){fprintf(T,"DIVERGE\n");fin("diverge");} v=strtoull(p.c_str()+1,0,10); }
  (*DecidedC)[s]=v;
  fprintf(T,"E c %u %llu\n",s,(unsigned long long)v); if(++nev>maxev)fin("maxevents");
  return v;
}
u32 __sx_rmw(void*p,int ty,u64 old,bool ok,u32 s,int op,u64 v){
  if(!gOn)return 0; u32 os=__sx_load(p,ty,old); if(!ok)return os; 
  if(op==-1){__sx_store(p,tsz(ty),s);return os;}
  if(!os&&!s)return 0;
  if(op==-2){leak(s?s:os,"atomicrmw");__sx_store(p,tsz(ty),0);return os;}
  u64 nv; if(ty==1000)nv=bD(op==SX_FADD?asD(old)+asD(v):asD(old)-asD(v)); else nv=op==SX_ADD?old+v:op==SX_SUB?old-v:op==SX_OR?old|v:old&v;
  __sx_store(p,tsz(ty),__sx_op2(op,ty,os,s,old,v,nv)); return os;
}
} // extern C
static void dumpNode(u32 n){ // iterative post-order
  std::vector<u32> st{n};
  while(!st.empty()){ u32 x=st.back(); if(!x||Dumped->count(x)){st.pop_back();continue;}
    Node&d=(*N)[x]; bool rdy=true; bool leaf=d.op==SX_CONST||d.op==SX_INPUT; bool cast=d.op>=SX_TRUNC&&d.op<=SX_UITOFP;
    if(!leaf){ if(d.a&&!Dumped->count(d.a)){st.push_back(d.a);rdy=false;} if(!cast&&d.b&&!Dumped->count(d.b)){st.push_back(d.b);rdy=false;} }
    if(rdy){ Dumped->insert(x); st.pop_back(); nNodes++;
      fprintf(T,"N %u %d %d %u %u %llu %llu\n",x,d.op,d.ty,d.a,d.b,(unsigned long long)d.c,(unsigned long long)d.val);} }
}
static bool finished=false;
static void fin(const char*why){
  if(finished)_exit(0); finished=true;
  for(auto*c:*CovL)fprintf(T,"V %s\n",c);
  for(auto&l:*Leaks)fprintf(T,"L %ld %s\n",l.second,l.first.c_str());
  for(u32 i=1;i<N->size();i++)dumpNode(i);
  fprintf(T,"END %s ops=%ld nodes=%ld\n",why,ops,nNodes); fflush(T); _exit(0);
}
static void onsig(int s){ char b[32];snprintf(b,32,"signal%d",s);
  signal(s,SIG_DFL); fin(b); }
static void init(){
  if(gOn)return;
  N=new std::vector<Node>;N->push_back({0,0,0,0,0,0});H=new std::unordered_map<Key,u32,KH>;In=new std::map<std::string,std::string>;Prefix=new std::vector<std::string>;Decided=new std::unordered_map<u32,int>;DecidedC=new std::unordered_map<u32,u64>;Cov=new std::unordered_set<const void*>;CovL=new std::vector<const char*>;Leaks=new std::map<std::string,long>;Dumped=new std::unordered_set<u32>;Pg=new std::unordered_map<u64,Page*>;
  N->reserve(1<<16);
  const char*t=getenv("SX_TRACE");T=fopen(t?t:"/dev/null","w"); if(!T)T=fopen("/dev/null","w");
  if(const char*m=getenv("SX_MAXEV"))maxev=atol(m);
  if(const char*f=getenv("SX_INPUT")){FILE*g=fopen(f,"r");char a[256],b[256];if(g){while(fscanf(g,"%255s %255s",a,b)==2)(*In)[a]=b;fclose(g);}}
  if(const char*f=getenv("SX_PREFIX")){FILE*g=fopen(f,"r");char a[64];if(g){while(fscanf(g,"%63s",a)==1)Prefix->push_back(a);fclose(g);}}
  for(int s:{SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL})signal(s,onsig);
  gOn=true;
}
__attribute__((constructor)) static void ctor(){init();}
static u32 arg(void*self,int i){ return __sx_callee==self?__sx_args[i]:0; }
static double hashv(const char*n){ u64 h=1469598103934665603ull;for(;*n;n++)h=(h^(unsigned char)*n)*1099511628211ull; h^=h>>29;h*=0xBF58476D1CE4E5B9ull;h^=h>>32; return ((h>>11)&((1ull<<40)-1))/(double)(1ull<<40);}
static u32 inputNode(const char*name,int ty,double lo,double hi,u64 bits){
  static std::map<std::string,u32>*ids=0; if(!ids)ids=new std::map<std::string,u32>;
  auto it=ids->find(name); if(it!=ids->end())return it->second;
  u32 id=mk(SX_INPUT,ty,0,0,ids->size()+1,bits);(*ids)[name]=id;
  fprintf(T,"I %u %d %s %.17g %.17g\n",id,ty,name,lo,hi); return id;
}
extern "C" {
double sx_real(const char*name,double lo,double hi){
  double v; auto it=In->find(name); if(it!=In->end())v=strtod(it->second.c_str(),0); else {v=lo+(hi-lo)*(0.05+0.9*hashv(name)); v=std::round(v*1024)/1024; if(v<lo||v>hi)v=lo+(hi-lo)*hashv(name);}
  __sx_rets[0]=inputNode(name,1000,lo,hi,bD(v));__sx_retvalid=1;return v;}
static int64_t iin(const char*name,int w,int64_t lo,int64_t hi){
  int64_t v; auto it=In->find(name); if(it!=In->end())v=strtoll(it->second.c_str(),0,10); else v=lo;
  u64 m=w>=64?~0ull:((1ull<<w)-1);
  __sx_rets[0]=inputNode(name,w,lo,hi,(u64)v&m);__sx_retvalid=1;return v;}
int64_t sx_int(const char*n,int64_t lo,int64_t hi){return iin(n,64,lo,hi);}
int sx_int32(const char*n,int lo,int hi){return (int)iin(n,32,lo,hi);}
char sx_char(const char*n,int lo,int hi){return (char)iin(n,8,lo,hi);}
void sx_assume(bool c){ u32 s=arg((void*)sx_assume,0);__sx_callee=0; if(!s){ if(!c){fprintf(T,"E x\n");fin("assume-false");} return;}
  fprintf(T,"E a %u\n",s); auto it=Decided->find(s); if(it==Decided->end())(*Decided)[s]=1; else if(!it->second){fprintf(T,"E x\n");fin("assume-false");}
  // normalise through negation
  u32 q=s;bool neg=false;while((*N)[q].op==SX_XOR&&(*N)[q].ty==1&&(*N)[(*N)[q].b].op==SX_CONST&&((*N)[(*N)[q].b].c&1)){q=(*N)[q].a;neg=!neg;}
  if(q!=s){auto j=Decided->find(q);if(j==Decided->end())(*Decided)[q]=!neg;else if((j->second!=0)==neg){fprintf(T,"E x\n");fin("assume-false");}}
}
static u32 lit(u32 s,double v){return s?s:cst(1000,bD(v));}
void sx_check(const char*l,bool c){ u32 s=arg((void*)sx_check,1);__sx_callee=0; fprintf(T,"E k %s %u %d\n",l,s,(int)c);}
void sx_check_eq(const char*l,double a,double b){ u32 x=arg((void*)sx_check_eq,1),y=arg((void*)sx_check_eq,2);__sx_callee=0; fprintf(T,"E e %s %u %u %.17g %.17g\n",l,lit(x,a),lit(y,b),a,b);}
void sx_check_le(const char*l,double a,double b){ u32 x=arg((void*)sx_check_le,1),y=arg((void*)sx_check_le,2);__sx_callee=0; fprintf(T,"E l %s %u %u %.17g %.17g\n",l,lit(x,a),lit(y,b),a,b);}
void sx_check_ieq(const char*l,int64_t a,int64_t b){ u32 x=arg((void*)sx_check_ieq,1),y=arg((void*)sx_check_ieq,2);__sx_callee=0; if(!x)x=cst(64,a);if(!y)y=cst(64,b); fprintf(T,"E i %s %u %u %lld %lld\n",l,x,y,(long long)a,(long long)b);}
void sx_check_deriv(const char*l,double d,double f,double v){ void*me=(void*)sx_check_deriv;u32 x=arg(me,1),y=arg(me,2),z=arg(me,3);__sx_callee=0; fprintf(T,"E d %s %u %u %u %.17g %.17g\n",l,lit(x,d),lit(y,f),z,d,f);}
void sx_check_const(const char*l,double a){ u32 x=arg((void*)sx_check_const,1);__sx_callee=0; fprintf(T,"E q %s %u %.17g\n",l,lit(x,a),a);}
int sx_plain_zero(double a){ u32 x=arg((void*)sx_plain_zero,0);__sx_callee=0;__sx_retvalid=0; return !x&&a==0; }
int sx_is_symbolic(){__sx_retvalid=0;return 1;}
void sx_finish(){fin("ok");}
}
