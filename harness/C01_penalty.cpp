// C01: material penalization (MSIMP, RAMP, Heaviside, none), its continuation, its parameters and its application to cell data.
#include "sxmain.hpp"
#include "Simp.hpp"
#include "Ramp.hpp"
#include "Heaviside.hpp"
#include "NoPenalty.hpp"
#include "ApplyPenalty.hpp"
#include "ApplyWeighting.hpp"
#include "Plato_TopOptFunctors.hpp"
#include <map>
using namespace Plato;
typedef Sacado::Fad::SFad<double,2> Fad2;
static std::string S(const char*s){return s;}
// read the penalty exponent of a model back through its value at density r (model-independent observers below)
static double msimp(double p,double m,double r){ return m+(1.0-m)*pow(r,p); }
static double ramp(double q,double m,double r){ return m+(1.0-m)*r/(1.0+q*(1.0-r)); }
static double heavi(double p,double L,double m,double x){ return m+(1.0-m)*pow(0.5*(1.0+sin(T_PI*x/(2.0*L))),p); }
static Teuchos::ParameterList plist(double p,double m,double add,double ub){
  Teuchos::ParameterList l; l.set<double>("Exponent",p); l.set<double>("Minimum Value",m); l.set<double>("Additive Continuation",add); l.set<double>("Penalty Exponent Upper Bound",ub); return l; }

SX_SCENARIO(msimp_value){
  double p=sx_real("p",1,6), m=sx_real("m",0,1), r=sx_real("r",0,1);
  MSIMP s(p,m); double v=s(r);
  sx::eq("def",v,msimp(p,m,r)); sx::le("lower",m,v); sx::le("upper",v,1.0);
  sx::eq("solid",s(1.0),1.0); sx::eq("void",s(0.0),m);
  MSIMP t(1.0,0.0); t.setPenalty(p); t.setMinimumErsatzMaterial(m); sx::eq("setters",t(r),v);
  Teuchos::ParameterList l=plist(p,m,0.1,3.0); MSIMP u(l); sx::eq("plist",u(r),v);
}
SX_SCENARIO(msimp_monotone){
  double p=sx_real("p",1,6), m=sx_real("m",0,1), a=sx_real("a",0,1), b=sx_real("b",0,1); sx_assume(a<=b);
  MSIMP s(p,m); sx::le("monotone",s(a),s(b));
}
SX_SCENARIO(msimp_deriv){
  double p=sx_real("p",1,6), m=sx_real("m",0,1), r=sx_real("r",0.001,1), q=sx_real("q",0.5,2);
  MSIMP s(p,m); Fad2 x(2,0,r), z(2,1,q); Fad2 xz=x*z; sx_assume(r*q<=1.0);
  Fad2 y=s(xz); sx::deriv("d0",y.dx(0),y.val(),r); sx::deriv("d1",y.dx(1),y.val(),q); sx::eq("val",y.val(),msimp(p,m,r*q));
}
SX_SCENARIO(ramp_value){
  double q=sx_real("q",0,20), m=sx_real("m",0,1), r=sx_real("r",0,1);
  Teuchos::ParameterList l=plist(q,m,0.1,3.0); RAMP s(l); double v=s(r);
  sx::eq("def",v,ramp(q,m,r)); sx::le("lower",m,v); sx::le("upper",v,1.0);
  sx::eq("solid",s(1.0),1.0); sx::eq("void",s(0.0),m);
  RAMP d; sx::eq("default",d(r),ramp(3.0,0.0,r));
}
SX_SCENARIO(ramp_monotone){
  double q=sx_real("q",0,20), m=sx_real("m",0,1), a=sx_real("a",0,1), b=sx_real("b",0,1); sx_assume(a<=b);
  Teuchos::ParameterList l=plist(q,m,0.1,3.0); RAMP s(l); sx::le("monotone",s(a),s(b));
}
SX_SCENARIO(ramp_deriv){
  double q=sx_real("q",0,20), m=sx_real("m",0,1), r=sx_real("r",0,1), w=sx_real("w",0,1);
  Teuchos::ParameterList l=plist(q,m,0.1,3.0); RAMP s(l); Fad2 x(2,0,r), z(2,1,w); Fad2 xz=x*z;
  Fad2 y=s(xz); sx::deriv("d0",y.dx(0),y.val(),r); sx::deriv("d1",y.dx(1),y.val(),w); sx::eq("val",y.val(),ramp(q,m,r*w));
}
SX_SCENARIO(heaviside_value){
  double p=sx_real("p",1,6), m=sx_real("m",0,1), L=sx_real("L",0.1,3), x=sx_real("x",-4,4);
  Heaviside s(p,L,m); double v=s(x);
  if(x<=-L) sx::eq("below",v,m); else if(x>=L) sx::eq("above",v,1.0); else sx::eq("band",v,heavi(p,L,m,x));
  sx::le("lower",m,v); sx::le("upper",v,1.0);
  Teuchos::ParameterList l=plist(p,m,0.1,3.0); l.set<double>("Regularization Length",L); Heaviside t(l); sx::eq("plist",t(x),v);
}
SX_SCENARIO(heaviside_deriv){
  double p=sx_real("p",1,6), m=sx_real("m",0,1), L=sx_real("L",0.1,3), x=sx_real("x",-4,4);
  sx_assume(x!=-L); sx_assume(x!=L);
  Heaviside s(p,L,m); Fad2 f(2,0,x); Fad2 y=s(f); sx_assume(sin(T_PI*x/(2.0*L))>-0.99);
  sx::deriv("d0",y.dx(0),y.val(),x); sx::eq("d1",y.dx(1),0.0);
}
SX_SCENARIO(nopenalty){ double r=sx_real("r",0,1); NoPenalty n; sx::eq("one",n(r),1.0); n.update(); sx::eq("one2",n(r),1.0); Teuchos::ParameterList l; NoPenalty k(l); sx::eq("one3",k(r),1.0); }

// continuation: after any number of updates the exponent is min(start+n*step, bound) when the start is below the bound
template<class M> static void cont(M& s,double p,double add,double ub,double m,double r,double (*f)(double,double,double)){
  double e=p;
  for(int i=0;i<3;i++){ s.update(); double t=e+add; e = t>=ub? ub : t; sx::le(sx::nm("bounded",i),e,ub); sx::eq(sx::nm("step",i),s(r),f(e,m,r)); }
}
SX_SCENARIO(msimp_continuation){
  double p=sx_real("p",1,6), m=sx_real("m",0,1), add=sx_real("add",0,2), ub=sx_real("ub",1,6), r=sx_real("r",0.01,0.99);
  sx_assume(p<=ub); Teuchos::ParameterList l=plist(p,m,add,ub); MSIMP s(l); cont(s,p,add,ub,m,r,msimp);
}
SX_SCENARIO(ramp_continuation){
  double p=sx_real("p",1,6), m=sx_real("m",0,1), add=sx_real("add",0,2), ub=sx_real("ub",1,6), r=sx_real("r",0.01,0.99);
  sx_assume(p<=ub); Teuchos::ParameterList l=plist(p,m,add,ub); RAMP s(l); cont(s,p,add,ub,m,r,ramp);
}
SX_SCENARIO(heaviside_continuation){
  double p=sx_real("p",1,6), m=sx_real("m",0,1), add=sx_real("add",0,2), ub=sx_real("ub",1,6);
  sx_assume(p<=ub); Teuchos::ParameterList l=plist(p,m,add,ub); Heaviside s(l); double e=p;
  for(int i=0;i<3;i++){ s.update(); double t=e+add; e = t>=ub? ub : t; sx::eq(sx::nm("step",i),s(0.25),heavi(e,1.0,m,0.25)); }
}
SX_SCENARIO(default_continuation){ // constructors that take no bound: bound 3.0, step 0.1
  double p=sx_real("p",1,3), m=sx_real("m",0,1), r=sx_real("r",0.01,0.99);
  MSIMP s(p,m); s.update(); double t=p+0.1; double e=t>=3.0?3.0:t; sx::eq("msimp",s(r),msimp(e,m,r));
  s.setAdditiveContinuationValue(0.5); s.update(); t=e+0.5; e=t>=3.0?3.0:t; sx::eq("msimp_step",s(r),msimp(e,m,r));
  Heaviside h(p,1.0,m); h.update(); t=p+0.1; e=t>=3.0?3.0:t; sx::eq("heaviside",h(0.25),heavi(e,1.0,m,0.25));
  RAMP k; k.update(); sx::eq("ramp",k(r),ramp(3.0,0.0,r));
}
// parameters given as a map: every subset of the keys; missing keys take the documented defaults
template<int MASK> static void setp(){
  double p=sx_real("p",1,6), m=sx_real("m",0,1), add=sx_real("add",0,2), L=sx_real("L",0.5,2), r=sx_real("r",0.01,0.4);
  std::map<std::string,Plato::Scalar> in; if(MASK&1)in["Exponent"]=p; if(MASK&2)in["Minimum Value"]=m; if(MASK&4)in["Additive Continuation"]=add; if(MASK&8)in["Regularization Length"]=L;
  double mm=(MASK&2)?m:1e-9, aa=(MASK&4)?add:0.1;
  { double e=(MASK&1)?p:3.0; MSIMP s(2.0,0.5); s.setParameters(in); sx::eq("msimp",s(r),msimp(e,mm,r)); s.update(); double t=e+aa; e=t>=3.0?3.0:t; sx::eq("msimp_next",s(r),msimp(e,mm,r)); }
  { double e=(MASK&1)?p:3.0; RAMP s; s.setParameters(in); sx::eq("ramp",s(r),ramp(e,mm,r)); s.update(); double t=e+aa; e=t>=3.0?3.0:t; sx::eq("ramp_next",s(r),ramp(e,mm,r)); }
  { double e=(MASK&1)?p:1.0; double LL=(MASK&8)?L:1.0; Heaviside s(2.0,0.7,0.5); s.setParameters(in); sx::eq("heaviside",s(r),heavi(e,LL,mm,r)); s.update(); double t=e+aa; e=t>=3.0?3.0:t; sx::eq("heaviside_next",s(r),heavi(e,LL,mm,r)); }
}
SX_TSCENARIO(params_all,setp<15>) SX_TSCENARIO(params_none,setp<0>) SX_TSCENARIO(params_exp,setp<1>) SX_TSCENARIO(params_min,setp<2>)
SX_TSCENARIO(params_add,setp<4>) SX_TSCENARIO(params_len,setp<8>) SX_TSCENARIO(params_7,setp<7>) SX_TSCENARIO(params_11,setp<11>) SX_TSCENARIO(params_14,setp<14>)
SX_SCENARIO(plist_defaults){
  double r=sx_real("r",0.01,0.4); Teuchos::ParameterList a,b,c;
  sx::eq("msimp",MSIMP(a)(r),msimp(3.0,1e-9,r)); sx::eq("ramp",RAMP(b)(r),ramp(3.0,0.0,r)); sx::eq("heaviside",Heaviside(c)(r),heavi(1.0,1.0,0.0,r));
  double p=sx_real("p",0.5,4), t=p+0.1, e=t>=3.0?3.0:t; { Teuchos::ParameterList l; l.set("Exponent",p); MSIMP s(l); s.update(); sx::eq("msimp_step",s(r),msimp(e,1e-9,r)); } { Teuchos::ParameterList l; l.set("Exponent",p); RAMP s(l); s.update(); sx::eq("ramp_step",s(r),ramp(e,0.0,r)); } { Teuchos::ParameterList l; l.set("Exponent",p); Heaviside s(l); s.update(); sx::eq("heaviside_step",s(r),heavi(t>=1.0?1.0:t,1.0,0.0,r)); }
}
// application to cell data: exactly the addressed cell is scaled, each entry once, by the penalty of the mean density
template<int D> static void weighting(){
  const int NT=3, NC=3, NN=D+1;
  ScalarMultiVector c("c",NC,NN); double mean[NC];
  for(int i=0;i<NC;i++){ mean[i]=0; for(int j=0;j<NN;j++){ c(i,j)=sx::real(sx::nm("c",i,j),0,1); mean[i]+=c(i,j);} mean[i]/=NN; }
  double q=sx_real("q",0,5), m=sx_real("m",0,0.5); Teuchos::ParameterList l=plist(q,m,0.1,3.0); RAMP pen(l);
  ScalarMultiVector io("io",NC,NT), in("in",NC,NT), out("out",NC,NT); ScalarVector vi("vi",NC),vo("vo",NC),vr("vr",NC);
  double r0[NC][NT]; double v0[NC];
  for(int i=0;i<NC;i++){ for(int k=0;k<NT;k++){ r0[i][k]=sx::real(sx::nm("x",i,k),-2,2); io(i,k)=r0[i][k]; in(i,k)=r0[i][k]; out(i,k)=7.0; } v0[i]=sx::real(sx::nm("v",i),-2,2); vi(i)=v0[i]; vr(i)=v0[i]; vo(i)=7.0; }
  ApplyWeighting<D,NT,RAMP> w(pen);
  for(int cell=1;cell<NC;cell++){ w(cell,io,c); w(cell,in,out,c); w(cell,vr,c); w(cell,vi,vo,c); }
  for(int i=0;i<NC;i++){ double f=i>=1? ramp(q,m,mean[i]) : 1.0;
    for(int k=0;k<NT;k++){ sx::eq(sx::nm("inout",i,k),io(i,k),f*r0[i][k]); sx::eq(sx::nm("in_unchanged",i,k),in(i,k),r0[i][k]); sx::eq(sx::nm("out",i,k),out(i,k), i>=1? f*r0[i][k] : 7.0); }
    sx::eq(sx::nm("scal_io",i),vr(i),f*v0[i]); sx::eq(sx::nm("scal_out",i),vo(i), i>=1? f*v0[i] : 7.0); sx::eq(sx::nm("scal_in",i),vi(i),v0[i]);
    double d=cell_density<NN>(i,c); sx::eq(sx::nm("density",i),d,mean[i]); }
  w.update(); double e=q+0.1>=3.0?3.0:q+0.1; w(0,vr,c); sx::eq("after_update",vr(0),ramp(e,m,mean[0])*v0[0]);
}
SX_TSCENARIO(weighting1,weighting<1>) SX_TSCENARIO(weighting2,weighting<2>) SX_TSCENARIO(weighting3,weighting<3>)
SX_SCENARIO(apply_penalty_arrays){
  double q=sx_real("q",0,5), m=sx_real("m",0,0.5), rho=sx_real("rho",0,1); Teuchos::ParameterList l=plist(q,m,0.1,3.0); RAMP pen(l); ApplyPenalty<RAMP> ap(pen);
  ScalarArray3D a("a",3,2,3); ScalarMultiVector b("b",3,4),d("d",3,4);
  for(int i=0;i<3;i++){ for(int j=0;j<2;j++)for(int k=0;k<3;k++) a(i,j,k)=sx::real(sx::nm("a",i,j,k),-2,2); for(int j=0;j<4;j++){ b(i,j)=sx::real(sx::nm("b",i,j),-2,2); d(i,j)=b(i,j);} }
  ap(1,rho,a); ap(2,rho,b); double pe=sx_real("pe",-2,2); Plato::apply_penalty<4>(1,pe,d);
  double f=ramp(q,m,rho);
  for(int i=0;i<3;i++){ for(int j=0;j<2;j++)for(int k=0;k<3;k++) sx::eq(sx::nm("a",i,j,k),a(i,j,k),(i==1?f:1.0)*sx::real(sx::nm("a",i,j,k),-2,2));
    for(int j=0;j<4;j++){ double x=sx::real(sx::nm("b",i,j),-2,2); sx::eq(sx::nm("b",i,j),b(i,j),(i==2?f:1.0)*x); sx::eq(sx::nm("d",i,j),d(i,j),(i==1?pe:1.0)*x); } }
}
template<int NN> static void cellmass(){
  ScalarMultiVector c("c",2,NN); ScalarVector n("n",NN); double ref[2]={0,0};
  for(int j=0;j<NN;j++) n(j)=sx::real(sx::nm("n",j),0,1);
  for(int i=0;i<2;i++) for(int j=0;j<NN;j++) c(i,j)=sx::real(sx::nm("c",i,j),0,1);
  for(int i=0;i<2;i++) for(int a=0;a<NN;a++) for(int b=0;b<NN;b++) ref[i]+=n(a)*n(b)*c(i,b);
  for(int i=0;i<2;i++) sx::eq(sx::nm("mass",i),cell_mass<NN>(i,n,c),ref[i]);
}
SX_TSCENARIO(cellmass2,cellmass<2>) SX_TSCENARIO(cellmass3,cellmass<3>) SX_TSCENARIO(cellmass4,cellmass<4>)
// derivative of the weighted value with respect to every nodal control
SX_SCENARIO(weighting_deriv){
  typedef Sacado::Fad::SFad<double,4> F; const int NN=4; ScalarMultiVectorT<F> c("c",1,NN); ScalarVectorT<F> r("r",1); ScalarVectorT<double> in("in",1); double cv[NN];
  for(int j=0;j<NN;j++){ cv[j]=sx::real(sx::nm("c",j),0.01,1); c(0,j)=F(NN,j,cv[j]); } in(0)=sx_real("x",-2,2);
  double p=sx_real("p",1.5,5), m=sx_real("m",0,0.5); MSIMP pen(p,m); ApplyWeighting<3,1,MSIMP> w(pen); w(0,in,r,c);
  for(int j=0;j<NN;j++) sx::deriv(sx::nm("d",j),r(0).dx(j),r(0).val(),cv[j]);
  F d=cell_density<NN>(0,c); for(int j=0;j<NN;j++) sx::eq(sx::nm("dd",j),d.dx(j),0.25);
}
