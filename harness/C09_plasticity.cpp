// C09: J2 plasticity state kernels. Local state: 0 accumulated plastic strain, 1 plastic multiplier increment, then plastic strain (engineering shear), then backstress.
#include "sxplato.hpp"
#include "SimplexPlasticity.hpp"
#include "SimplexThermoPlasticity.hpp"
#include "J2PlasticityUtilities.hpp"
#include "ThermoPlasticityUtilities.hpp"
template<int D> struct St; 
template<> struct St<2>{ static const int N=4; static bool normal(int i){ return i!=2; } };
template<> struct St<3>{ static const int N=6; static bool normal(int i){ return i<3; } };
template<int D> static void update(){ const int N=St<D>::N,L=2+2*N; double H=sx_real("H",0,100); auto p=mv("p",NC,L),l=mv("l",NC,L),n=mv("n",NC,N); J2PlasticityUtilities<D> u; u.updatePlasticStrainAndBackstressPlasticStep(C,p,n,H,l); double g=was("l",C,1);
  sx::eq("accum",l(C,0),was("l",C,0)); sx::eq("mult",l(C,1),g);
  for(int i=0;i<N;i++){ sx::eq(sx::nm("plastic_strain",i),l(C,2+i),p(C,2+i)+(St<D>::normal(i)?1:2)*sqrt(1.5)*g*n(C,i)); sx::eq(sx::nm("backstress",i),l(C,2+N+i),p(C,2+N+i)+sqrt(2.0/3.0)*H*g*n(C,i)); }
  others("l",l); kept("p",p); kept("n",n);
  // the updated state is a root of the residual
  auto r=mv("r",NC,L); u.fillPlasticStrainTensorResidualPlasticStep(C,l,p,n,r); u.fillBackstressTensorResidualPlasticStep(C,H,l,p,n,r); for(int i=2;i<L;i++) sx::eq(sx::nm("root",i),r(C,i),0); for(int i=0;i<2;i++) sx::eq(sx::nm("res_untouched",i),r(C,i),was("r",C,i)); others("r",r); }
SC(update2,update<2>()) SC(update3,update<3>())
template<int D> static void residual(){ const int N=St<D>::N,L=2+2*N; double H=sx_real("H",0,100); auto p=mv("p",NC,L),l=mv("l",NC,L),n=mv("n",NC,N),r=mv("r",NC,L); J2PlasticityUtilities<D> u; u.fillPlasticStrainTensorResidualPlasticStep(C,l,p,n,r);
  for(int i=0;i<N;i++) sx::eq(sx::nm("not_backstress",i),r(C,2+N+i),was("r",C,2+N+i));
  u.fillBackstressTensorResidualPlasticStep(C,H,l,p,n,r); double g=l(C,1);
  for(int i=0;i<N;i++){ sx::eq(sx::nm("res_strain",i),r(C,2+i),l(C,2+i)-p(C,2+i)-(St<D>::normal(i)?1:2)*sqrt(1.5)*g*n(C,i)); sx::eq(sx::nm("res_backstress",i),r(C,2+N+i),l(C,2+N+i)-p(C,2+N+i)-sqrt(2.0/3.0)*H*g*n(C,i)); }
  for(int i=0;i<2;i++) sx::eq(sx::nm("res_untouched",i),r(C,i),was("r",C,i)); others("r",r); kept("l",l); kept("p",p); kept("n",n); }
SC(residual2,residual<2>()) SC(residual3,residual<3>())
template<int D> static void elastic(){ const int N=St<D>::N,L=2+2*N; auto p=mv("p",NC,L),l=mv("l",NC,L),r=mv("r",NC,L); J2PlasticityUtilities<D> u; u.fillPlasticStrainTensorResidualElasticStep(C,l,p,r); for(int i=0;i<N;i++) sx::eq(sx::nm("not_backstress",i),r(C,2+N+i),was("r",C,2+N+i)); u.fillBackstressTensorResidualElasticStep(C,l,p,r);
  for(int i=2;i<L;i++) sx::eq(sx::nm("res",i),r(C,i),l(C,i)-p(C,i)); for(int i=0;i<2;i++) sx::eq(sx::nm("res_untouched",i),r(C,i),was("r",C,i)); others("r",r); kept("l",l);
  u.updatePlasticStrainAndBackstressElasticStep(C,p,l); for(int i=0;i<L;i++) sx::eq(sx::nm("frozen",i),l(C,i),i<2?was("l",C,i):p(C,i)); others("l",l); kept("p",p);
  u.fillPlasticStrainTensorResidualElasticStep(C,l,p,r); u.fillBackstressTensorResidualElasticStep(C,l,p,r); for(int i=2;i<L;i++) sx::eq(sx::nm("root",i),r(C,i),0); }
SC(elastic2,elastic<2>()) SC(elastic3,elastic<3>())
// yield surface normal: unit norm (shear counted twice), direction of deviatoric stress minus backstress
template<int D> static void normal(){ const int N=St<D>::N,L=2+2*N; auto s=mv("s",NC,N),l=mv("l",NC,L),n=mv("n",NC,N); auto m=sv("m",NC); double q=0; for(int i=0;i<N;i++){ double x=s(C,i)-l(C,2+N+i); q+=(St<D>::normal(i)?1:2)*x*x; } sx_assume(q>0.01);
  J2PlasticityUtilities<D> u; u.computeDeviatoricStressMinusBackstressNormalized(C,s,l,n,m); sx::eq("norm_sq",m(C)*m(C),q); sx::le("norm_nonneg",0,m(C)); double w=0; for(int i=0;i<N;i++){ sx::eq(sx::nm("direction",i),n(C,i)*m(C),s(C,i)-l(C,2+N+i)); w+=(St<D>::normal(i)?1:2)*n(C,i)*n(C,i); } sx::eq("unit",w,1);
  others("n",n); others1("m",m); kept("s",s); kept("l",l); }
SC(normal2,normal<2>()) SC(normal3,normal<3>())
// a plastic step along a deviatoric normal changes the plastic strain without changing volume, and the equivalent plastic strain increment is the multiplier
template<int D> static void flow(){ const int N=St<D>::N,L=2+2*N; double H=sx_real("H",0,100); auto p=mv("p",NC,L),l=mv("l",NC,L),s=mv("s",NC,N); ScalarMultiVector n("n0",NC,N); ScalarVector m("m0",NC); double t=0,b=0; for(int i=0;i<N;i++) if(St<D>::normal(i)){ if(i!=(D==2?3:2)){ t+=s(C,i); b+=l(C,2+N+i); } } int last=D==2?3:2; s(C,last)=-t; l(C,2+N+last)=-b;
  double q=0; for(int i=0;i<N;i++){ double x=s(C,i)-l(C,2+N+i); q+=(St<D>::normal(i)?1:2)*x*x; } sx_assume(q>0.01); double g=l(C,1);
  J2PlasticityUtilities<D> u; u.computeDeviatoricStressMinusBackstressNormalized(C,s,l,n,m); u.updatePlasticStrainAndBackstressPlasticStep(C,p,n,H,l); double dv=0,w=0; for(int i=0;i<N;i++){ double d=l(C,2+i)-p(C,2+i); if(St<D>::normal(i)){ dv+=d; w+=d*d; } else w+=d*d/2; } sx::eq("isochoric",dv,0); sx::eq("equivalent_increment",2*w,3*g*g); }
SC(flow2,flow<2>()) SC(flow3,flow<3>())
template<int D> static void getters(){ const int N=St<D>::N,L=2+2*N; auto l=mv("l",NC,L),k=mv("k",NC,L),e=mv("e",NC,N),b=mv("b",NC,N),d=mv("d",NC,N); auto a=sv("a",NC),m=sv("m",NC); J2PlasticityUtilities<D> u; u.getAccumulatedPlasticStrain(C,l,a); u.getPlasticMultiplierIncrement(C,l,m); u.getPlasticStrainTensor(C,l,e); u.getBackstressTensor(C,l,b); u.computePlasticStrainMisfit(C,l,k,d);
  sx::eq("accum",a(C),l(C,0)); sx::eq("mult",m(C),l(C,1)); for(int i=0;i<N;i++){ sx::eq(sx::nm("strain",i),e(C,i),l(C,2+i)); sx::eq(sx::nm("back",i),b(C,i),l(C,2+N+i)); sx::eq(sx::nm("misfit",i),d(C,i),l(C,2+i)-k(C,2+i)); }
  others("e",e); others("b",b); others("d",d); others1("a",a); others1("m",m); kept("l",l); kept("k",k); }
SC(getters2,getters<2>()) SC(getters3,getters<3>())
template<int D> static void mech(){ const int N=St<D>::N,L=2+2*N; const int nd=SimplexPlasticity<D>::mNumDofsPerNode; auto l=mv("l",NC,L),u=mv("u",NC,nd*(D+1)),t=mv("t",NC,N),e=mv("e",NC,N); auto b=sv("b",D+1); ThermoPlasticityUtilities<D,SimplexPlasticity<D>> k(sx_real("al",0,1),sx_real("T0",-10,10),sx_real("ts",0.1,10)); k.computeElasticStrain(C,u,l,b,t,e);
  for(int i=0;i<N;i++) sx::eq(sx::nm("elastic",i),e(C,i),t(C,i)-l(C,2+i)); others("e",e); kept("t",t); kept("l",l); kept("u",u); }
SC(mech2,mech<2>()) SC(mech3,mech<3>())
template<int D> static void thermo(){ const int N=St<D>::N,L=2+2*N; typedef SimplexThermoPlasticity<D> P; const int nd=P::mNumDofsPerNode, off=P::mTemperatureDofOffset; sx::ieq("temperature_dof",off,D); sx::ieq("dofs",nd,D+2); auto l=mv("l",NC,L),u=mv("u",NC,nd*(D+1)),t=mv("t",NC,N),e=mv("e",NC,N); auto b=sv("b",D+1); double al=sx_real("al",0,1),T0=sx_real("T0",-10,10),ts=sx_real("ts",0.1,10);
  ThermoPlasticityUtilities<D,P> k(al,T0,ts); k.computeElasticStrain(C,u,l,b,t,e); double T=0; for(int a=0;a<=D;a++) T+=b(a)*u(C,a*nd+off); double th=al*(ts*T-T0);
  for(int i=0;i<N;i++) sx::eq(sx::nm("elastic",i),e(C,i),t(C,i)-l(C,2+i)-(St<D>::normal(i)?th:0)); others("e",e); kept("t",t); kept("l",l); kept("u",u); 
  auto f=mv("e",NC,N); ThermoPlasticityUtilities<D,P> z; z.computeElasticStrain(C,u,l,b,t,f); for(int i=0;i<N;i++) sx::eq(sx::nm("no_expansion_by_default",i),f(C,i),t(C,i)-l(C,2+i)); }
SC(thermo2,thermo<2>()) SC(thermo3,thermo<3>())
