// C02: density projection filters (smoothed threshold and Heaviside) and their application to cell data.
#include "sxmain.hpp"
#include "HyperbolicTangentProjection.hpp"
#include "HeavisideProjection.hpp"
#include "ApplyProjection.hpp"
using namespace Plato;
typedef Sacado::Fad::SFad<double,2> Fad2;
static double th(double b,double e,double r){ return (tanh(b*e)+tanh(b*(r-e)))/(tanh(b*e)+tanh(b*(1.0-e))); }
static double hv(double b,double r){ return 1.0-exp(-b*(1.0-r))+(1.0-r)*exp(-b); }
SX_SCENARIO(tanh_value){
  double b=sx_real("b",0.5,64), e=sx_real("e",0,1), r=sx_real("r",0,1);
  HyperbolicTangentProjection p(b,e); double v=p.apply(r);
  sx::eq("def",v,th(b,e,r)); sx::eq("zero",p.apply(0.0),0.0); sx::eq("one",p.apply(1.0),1.0);
  Teuchos::ParameterList l; l.set<double>("Beta",b); l.set<double>("Eta",e); HyperbolicTangentProjection q(l); sx::eq("plist",q.apply(r),v);
  Teuchos::ParameterList d; HyperbolicTangentProjection q2(d); sx::eq("plist_defaults",q2.apply(r),th(10.0,0.5,r));
  HyperbolicTangentProjection q3; sx::eq("defaults",q3.apply(r),th(10.0,0.5,r));
  Teuchos::ParameterList lb; lb.set<double>("Beta",b); HyperbolicTangentProjection q4(lb); sx::eq("plist_beta",q4.apply(r),th(b,0.5,r));
  Teuchos::ParameterList le; le.set<double>("Eta",e); HyperbolicTangentProjection q5(le); sx::eq("plist_eta",q5.apply(r),th(10.0,e,r));
}
SX_SCENARIO(tanh_monotone_bounded){
  double b=sx_real("b",0.5,64), e=sx_real("e",0,1), r=sx_real("r",0,1), s=sx_real("s",0,1); sx_assume(r<=s);
  HyperbolicTangentProjection p(b,e); double v=p.apply(r), w=p.apply(s);
  sx::le("monotone",v,w); sx::le("lower",0.0,v); sx::le("upper",v,1.0);
}
// any sequence of parameter changes leaves the same filter as constructing it with the final parameters
template<int SEQ> static void hist(){
  double b0=sx_real("b0",0.5,64), e0=sx_real("e0",0,1), r=sx_real("r",0,1), b=b0, e=e0;
  HyperbolicTangentProjection p(b0,e0); int s=SEQ;
  for(int i=0;i<3;i++){ double bn=sx::real(sx::nm("b",i+1),0.5,64), en=sx::real(sx::nm("e",i+1),0,1);
    switch(s%4){ case 0: p.setCurvatureParameterBeta(bn); b=bn; break; case 1: p.setTresholdLevelParameterEta(en); e=en; break; case 2: p.setProjectionParameters(bn,en); b=bn; e=en; break; default: break; } s/=4;
    sx::eq(sx::nm("after",i),p.apply(r),th(b,e,r)); sx::eq(sx::nm("one",i),p.apply(1.0),1.0); sx::eq(sx::nm("zero",i),p.apply(0.0),0.0); }
  HyperbolicTangentProjection q(b,e); sx::eq("same_as_constructed",p.apply(r),q.apply(r));
}
SX_TSCENARIO(tanh_hist_bbb,hist<0>) SX_TSCENARIO(tanh_hist_beb,hist<0+4+0>) SX_TSCENARIO(tanh_hist_ebe,hist<1+0+16>) SX_TSCENARIO(tanh_hist_pbe,hist<2+0+16>) SX_TSCENARIO(tanh_hist_ebp,hist<1+0+32>) SX_TSCENARIO(tanh_hist_eep,hist<1+4+32>) SX_TSCENARIO(tanh_hist_bpe,hist<0+8+16>) SX_TSCENARIO(tanh_hist_ppp,hist<2+8+32>)
SX_SCENARIO(tanh_deriv){
  double b=sx_real("b",0.5,64), e=sx_real("e",0,1), r=sx_real("r",0,1), w=sx_real("w",0.5,1);
  HyperbolicTangentProjection p(b,e); Fad2 x(2,0,r), z(2,1,w); Fad2 xz=x*z; Fad2 y=p.apply(xz);
  sx::deriv("d0",y.dx(0),y.val(),r); sx::deriv("d1",y.dx(1),y.val(),w); sx::eq("val",y.val(),th(b,e,r*w));
}
SX_SCENARIO(heaviside_value){
  double b=sx_real("b",0.1,64), r=sx_real("r",0,1), b2=sx_real("b2",0.1,64);
  HeavisideProjection p(b); sx::eq("def",p.apply(r),hv(b,r)); sx::eq("at0",p.apply(0.0),1.0); sx::eq("at1",p.apply(1.0),0.0);
  HeavisideProjection d; sx::eq("default",d.apply(r),hv(10.0,r));
  d.setCurvatureParameterBeta(b); sx::eq("setter",d.apply(r),hv(b,r)); d.setCurvatureParameterBeta(b2); sx::eq("setter2",d.apply(r),hv(b2,r)); sx::eq("setter_at0",d.apply(0.0),1.0);
}
SX_SCENARIO(heaviside_deriv){
  double b=sx_real("b",0.1,64), r=sx_real("r",0,1), w=sx_real("w",0.5,1);
  HeavisideProjection p(b); Fad2 x(2,0,r), z(2,1,w); Fad2 xz=x*z; Fad2 y=p.apply(xz);
  sx::deriv("d0",y.dx(0),y.val(),r); sx::deriv("d1",y.dx(1),y.val(),w); sx::eq("val",y.val(),hv(b,r*w));
}
template<int NN> static void apply_cells(){
  double b=sx_real("b",0.5,20), e=sx_real("e",0,1); const int NC=3; ScalarMultiVector c("c",NC,NN); double m[NC];
  for(int i=0;i<NC;i++){ m[i]=0; for(int j=0;j<NN;j++){ c(i,j)=sx::real(sx::nm("c",i,j),0,1); m[i]+=c(i,j);} m[i]/=NN; }
  HyperbolicTangentProjection p(b,e); ApplyProjection<HyperbolicTangentProjection> a(p); ApplyProjection<HeavisideProjection> h(HeavisideProjection{b}); ApplyProjection<HyperbolicTangentProjection> d;
  for(int i=0;i<NC;i++){ double x=a(i,c), y=h(i,c), z=d(i,c); sx::eq(sx::nm("tanh",i),x,th(b,e,m[i])); sx::eq(sx::nm("heaviside",i),y,hv(b,m[i])); sx::eq(sx::nm("default",i),z,th(10.0,0.5,m[i]));
    for(int j=0;j<NN;j++) sx::eq(sx::nm("control_unchanged",i,j),c(i,j),sx::real(sx::nm("c",i,j),0,1)); }
}
SX_TSCENARIO(apply1,apply_cells<1>) SX_TSCENARIO(apply2,apply_cells<2>) SX_TSCENARIO(apply3,apply_cells<3>) SX_TSCENARIO(apply4,apply_cells<4>) SX_TSCENARIO(apply8,apply_cells<8>)
template<class P> static void apply_deriv_t(const P& pf){
  typedef Sacado::Fad::SFad<double,4> F; ScalarMultiVectorT<F> c("c",2,4); double v[4];
  for(int i=0;i<2;i++)for(int j=0;j<4;j++){ double x=sx::real(sx::nm("c",i,j),0,1); if(i==1) v[j]=x; c(i,j)=F(4,j,x); }
  ApplyProjection<P> a(pf); F y=a(1,c); for(int j=0;j<4;j++) sx::deriv(sx::nm("d",j),y.dx(j),y.val(),v[j]);
}
SX_SCENARIO(apply_deriv_tanh){ double b=sx_real("b",0.5,20), e=sx_real("e",0,1); apply_deriv_t(HyperbolicTangentProjection(b,e)); }
SX_SCENARIO(apply_deriv_heaviside){ double b=sx_real("b",0.5,20); apply_deriv_t(HeavisideProjection(b)); }
