// C10: local stress measures: von Mises stress, eigenvalues of Voigt tensors, tensile energy density.
#include "sxplato.hpp"
#include "VonMisesYieldFunction.hpp"
#include "Eigenvalues.hpp"
#include "SimplexMechanics.hpp"
#include "TensileEnergyDensity.hpp"
#include "TensileEnergyDensity.cpp"
#include <Sacado.hpp>
typedef Sacado::Fad::SFad<double,6> F6;
static void vm3(){ auto s=mv("s",NC,6); auto v=sv("v",NC); double q=0; for(int i=0;i<3;i++){ double d=s(C,i)-s(C,(i+1)%3); q+=d*d/2+3*s(C,3+i)*s(C,3+i); } sx_assume(q>1e-6); VonMisesYieldFunction<3>()(C,s,v); sx::eq("square",v(C)*v(C),q); sx::le("nonneg",0,v(C)); others1("v",v); kept("s",s);
  // independent of the hydrostatic part, homogeneous
  double p=sx_real("p",-10,10); ScalarMultiVector h("h0",NC,6); for(int i=0;i<6;i++) h(C,i)=s(C,i)+(i<3?p:0); ScalarVector w("w0",NC); VonMisesYieldFunction<3>()(C,h,w); sx::eq("pressure_independent",w(C),v(C)); }
SC(vm3,vm3())
static void vm2(){ auto s=mv("s",NC,3); auto v=sv("v",NC); double q=s(C,0)*s(C,0)-s(C,0)*s(C,1)+s(C,1)*s(C,1)+3*s(C,2)*s(C,2); sx_assume(q>1e-6); VonMisesYieldFunction<2>()(C,s,v); sx::eq("square",v(C)*v(C),q); sx::le("nonneg",0,v(C)); others1("v",v); kept("s",s);
  ScalarMultiVector t("t0",NC,6); t(C,0)=s(C,0); t(C,1)=s(C,1); t(C,5)=s(C,2); ScalarVector w("w0",NC); VonMisesYieldFunction<3>()(C,t,w); sx::eq("same_as_3d_plane_stress",w(C),v(C)); }
SC(vm2,vm2())
static void vm1(){ auto s=mv("s",NC,1); auto v=sv("v",NC); VonMisesYieldFunction<1>()(C,s,v); sx::eq("value",v(C),s(C,0)); others1("v",v); kept("s",s); }
SC(vm1,vm1())
template<int D> static void vmfad(){ const int N=Vg<D>::N; Plato::ScalarMultiVectorT<F6> s("s",NC,N); Plato::ScalarVectorT<F6> v("v",NC); double x[6]; for(int i=0;i<N;i++){ x[i]=sx::real(sx::nm("x",i),-10,10); s(C,i)=F6(6,i,x[i]); } double q=0; if(D==3) for(int i=0;i<3;i++){ double d=x[i]-x[(i+1)%3]; q+=d*d/2+3*x[3+i]*x[3+i]; } else q=x[0]*x[0]-x[0]*x[1]+x[1]*x[1]+3*x[2]*x[2]; sx_assume(q>1e-6);
  VonMisesYieldFunction<D>()(C,s,v); sx::eq("value",v(C).val()*v(C).val(),q); for(int i=0;i<N;i++) sx::deriv(sx::nm("d",i),v(C).dx(i),v(C).val(),x[i]); }
SC(vmfad2,vmfad<2>()) SC(vmfad3,vmfad<3>())
// ---- eigenvalues: the characteristic polynomial has exactly these roots.
// Every symmetric 2x2 tensor with nonzero off-diagonal c is {a, a+2c*tau, c} with tau=(1-t^2)/(2t), t=2m/(1-m^2), |t|<=1; this
// parametrisation (complete, m in both signs) makes the square roots of the rotation rational.
static double tau2(double m){ double t=2*m/(1-m*m); return (1-t*t)/t; }
static double mpar(bool neg){ return neg ? sx::real("m",-0.4142,-0.001) : sx::real("m",0.001,0.4142); }
static void flat2(){ auto t=mv("t",NC,3); auto e=mv("e",NC,2); t(C,2)=0; bool s=sx_int32("s",0,1); Eigenvalues<2>()(C,t,e,s); for(int i=0;i<2;i++) sx::eq(sx::nm("diagonal",i),e(C,i),t(C,i)); }
SC(eig2diag,flat2())
template<bool S,bool NEG> static void eig2(){ auto e=mv("e",NC,2); double a=sx_real("a",-10,10),c=sx_real("c",-10,10),m=mpar(NEG); sx_assume(c!=0); ScalarMultiVector t("t0",NC,3); t(C,0)=a; t(C,1)=a+c*tau2(m); t(C,2)=S?2*c:c; double b=t(C,1); Eigenvalues<2>()(C,t,e,S); sx::eq("trace",e(C,0)+e(C,1),a+b); sx::eq("det",e(C,0)*e(C,1),a*b-c*c); others("e",e); }
SC(eig2,(eig2<false,false>())) SC(eig2s,(eig2<true,false>())) SC(eig2n,(eig2<false,true>())) SC(eig2sn,(eig2<true,true>()))
static void eig1(){ auto t=mv("t",NC,1); auto e=mv("e",NC,1); bool s=sx_int32("s",0,1); Eigenvalues<1>()(C,t,e,s); sx::eq("value",e(C,0),t(C,0)); others("e",e); kept("t",t); }
SC(eig1,eig1())
static void eig3d(){ auto e=mv("e",NC,3); auto t=mv("t",NC,6); bool s=sx_int32("s",0,1); for(int i=3;i<6;i++) t(C,i)=0; Eigenvalues<3>()(C,t,e,s); for(int i=0;i<3;i++) sx::eq(sx::nm("diagonal",i),e(C,i),t(C,i)); others("e",e); }
SC(eig3diag,eig3d())
// 3D, full tensor, one sweep: the largest off-diagonal entry (any of the three) is eliminated exactly, the third diagonal entry is kept
template<bool S,bool NEG,int K> static void eig3one(){ auto e=mv("e",NC,3); ScalarMultiVector t("t0",NC,6); double a=sx_real("a",-10,10),c=sx_real("c",0.001,10),m=mpar(NEG); if(sx_int32("flip",0,1)) c=-c; int p=(K+1)%3,q=(K+2)%3; if(p>q){ int x=p; p=q; q=x; } t(C,p)=a; t(C,q)=a+c*tau2(m); t(C,K)=sx_real("d",-10,10); double f=S?2:1; t(C,3+K)=f*c; for(int i=0;i<3;i++) if(i!=K){ double o=sx::real(sx::nm("o",i),-10,10); sx_assume(o<fabs(c)); sx_assume(-o<fabs(c)); t(C,3+i)=f*o; }
  double b=t(C,q); Eigenvalues<3> g(1); g(C,t,e,S); sx::eq("kept",e(C,K),t(C,K)); sx::eq("pair_trace",e(C,p)+e(C,q),a+b); sx::eq("pair_det",e(C,p)*e(C,q),a*b-c*c); others("e",e); }
SC(eig3one0,(eig3one<false,false,0>())) SC(eig3one1,(eig3one<false,true,1>())) SC(eig3one2,(eig3one<false,false,2>())) SC(eig3one0s,(eig3one<true,true,0>())) SC(eig3one1s,(eig3one<true,false,1>())) SC(eig3one2s,(eig3one<true,true,2>()))
static void eig3zero(){ auto e=mv("e",NC,3); auto t=mv("t",NC,6); Eigenvalues<3> f; f.setNumFixedIterations(0); f(C,t,e,false); for(int i=0;i<3;i++) sx::eq(sx::nm("no_sweep",i),e(C,i),t(C,i)); }
SC(eig3zero,eig3zero())
// ---- tensile energy density
template<int D> static void ted(){ auto e=mv("e",NC,D); auto w=sv("w",NC); double la=sx_real("la",0,100),mu=sx_real("mu",0,100); TensileEnergyDensity<D>()(C,e,la,mu,w); double t=0,x=0; for(int i=0;i<D;i++){ t+=e(C,i); if(e(C,i)>0) x+=mu*e(C,i)*e(C,i); } if(t>0) x+=la*t*t/2; sx::eq("energy",w(C),x); sx::le("nonneg",0,w(C)); others1("w",w); kept("e",e); }
SC(ted1,ted<1>()) SC(ted2,ted<2>()) SC(ted3,ted<3>())
static void eigeq(){ double a=sx_real("a",-10,10),c=sx_real("c",-10,10); sx_assume(c*c>1e-6); bool s=sx_int32("s",0,1); ScalarMultiVector t("t0",NC,3),e("e0",NC,2),T("T0",NC,6),E("E0",NC,3); t(C,0)=t(C,1)=a; t(C,2)=s?2*c:c; Eigenvalues<2>()(C,t,e,s); sx::eq("trace2",e(C,0)+e(C,1),2*a); sx::eq("det2",e(C,0)*e(C,1),a*a-c*c);
  T(C,0)=T(C,2)=a; T(C,4)=t(C,2); T(C,1)=sx_real("d",-10,10); Eigenvalues<3> g(1); g(C,T,E,s); sx::eq("kept3",E(C,1),T(C,1)); sx::eq("trace3",E(C,0)+E(C,2),2*a); sx::eq("det3",E(C,0)*E(C,2),a*a-c*c); }
SC(eigeq,eigeq())
