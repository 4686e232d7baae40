// C17: structural dynamics (frequency domain) element kernels: inertial and damping forces, cell residual, energies, response misfit.
#include "sxplato.hpp"
#include <Teuchos_ParameterList.hpp>
#include "SimplexStructuralDynamics.hpp"
#include "StateValues.hpp"
#include "InertialForces.hpp"
#include "ComplexRayleighDamping.hpp"
#include "AdjointComplexRayleighDamping.hpp"
#include "RayleighDamping.hpp"
#include "StructuralDynamicsCellResidual.hpp"
#include "ComplexElasticEnergy.hpp"
#include "ComplexInertialEnergy.hpp"
#include "ComputeFrequencyResponseMisfit.hpp"
#include "DoubleDotProduct2ndOrderTensor.hpp"
#include "Simp.hpp"
#include "ApplyPenalty.hpp"
typedef Teuchos::ParameterList PL;
typedef Sacado::Fad::SFad<double,1> F1;
// damping: every node of the cell, real and imaginary parts coupled, the adjoint operator is the transpose
template<int D> static void damping(bool list){ const int N=D+1, K=2*D*N; double m=sx_real("mass",0,2),s=sx_real("stiff",0,2); auto e=mv("e",NC,K); auto i=mv("i",NC,K); auto f=mv("f",NC,K); auto g=mv("g",NC,K); PL l; l.set<double>("Rayleigh Mass Damping",m); l.set<double>("Rayleigh Stiffness Damping",s);
  ComplexRayleighDamping<D> A=list?ComplexRayleighDamping<D>(l):ComplexRayleighDamping<D>(m,s); AdjointComplexRayleighDamping<D> B=list?AdjointComplexRayleighDamping<D>(l):AdjointComplexRayleighDamping<D>(m,s); A(C,e,i,f); B(C,e,i,g);
  for(int n=0;n<N;n++)for(int d=0;d<D;d++){ int r=2*D*n+d, c=r+D; sx::eq(sx::nm("real",n,d),f(C,r),m*i(C,c)+s*e(C,c)); sx::eq(sx::nm("imag",n,d),f(C,c),-(m*i(C,r)+s*e(C,r))); sx::eq(sx::nm("adj_real",n,d),g(C,r),-(m*i(C,c)+s*e(C,c))); sx::eq(sx::nm("adj_imag",n,d),g(C,c),m*i(C,r)+s*e(C,r)); }
  others("f",f); others("g",g); kept("e",e); kept("i",i); }
SC(damping1,damping<1>(false)) SC(damping2,damping<2>(false)) SC(damping3,damping<3>(false)) SC(damping2l,damping<2>(true))
SC(damping_defaults, PL l,lb,lr; ComplexRayleighDamping<2> A(l); AdjointComplexRayleighDamping<2> B(lb); RayleighDamping<4> R(lr); auto e=mv("e",NC,4); auto i=mv("i",NC,4); auto f=mv("f",NC,4); auto g=mv("g",NC,4); auto h=mv("h",NC,4); A(C,e,i,f); B(C,e,i,g); R(C,e,i,h); for(int k=0;k<4;k++){ sx::eq(sx::nm("none",k),f(C,k),0); sx::eq(sx::nm("adj_none",k),g(C,k),0); sx::eq(sx::nm("real_none",k),h(C,k),0); })
// one node only (as the element kernels may be used)
SC(damping_node, double m=sx_real("mass",0,2); double s=sx_real("stiff",0,2); ComplexRayleighDamping<3> A(m,s); auto e=mv("e",NC,6); auto i=mv("i",NC,6); auto f=mv("f",NC,6); A(C,e,i,f); for(int d=0;d<3;d++){ sx::eq(sx::nm("real",d),f(C,d),m*i(C,3+d)+s*e(C,3+d)); sx::eq(sx::nm("imag",d),f(C,3+d),-(m*i(C,d)+s*e(C,d))); } others("f",f))
template<int K> static void rayleigh(bool list){ double m=sx_real("mass",0,2),s=sx_real("stiff",0,2); auto e=mv("e",NC,K); auto i=mv("i",NC,K); auto f=mv("f",NC,K); PL l; l.set<double>("Rayleigh Mass Damping",m); l.set<double>("Rayleigh Stiffness Damping",s); RayleighDamping<K> R=list?RayleighDamping<K>(l):RayleighDamping<K>(m,s); R(C,e,i,f); for(int k=0;k<K;k++) sx::eq(sx::nm("force",k),f(C,k),m*i(C,k)+s*e(C,k)); others("f",f); kept("e",e); kept("i",i); }
SC(rayleigh6,rayleigh<6>(false)) SC(rayleigh12,rayleigh<12>(true))
// inertial forces: consistent mass; total force is mass times the interpolated displacement
template<int D> static void inertia(){ const int N=D+1, K=2*D; double rho=sx_real("rho",0.1,10); InertialForces f(rho); auto v=sv("v",NC,0.1,4); auto b=sv("b",N,0,1); auto u=mv("u",NC,K); auto o=mv("o",NC,K*N); f(C,v,b,u,o); for(int n=0;n<N;n++)for(int d=0;d<K;d++) sx::eq(sx::nm("force",n,d),o(C,K*n+d),rho*v(C)*b(n)*u(C,d)); others("o",o); kept("u",u); kept1("v",v,0.1,4); }
SC(inertia1,inertia<1>()) SC(inertia2,inertia<2>()) SC(inertia3,inertia<3>())
template<int D> static void mass(){ const int N=D+1, K=2*D; double rho=sx_real("rho",0.1,10); auto v=sv("v",NC,0.1,4); ScalarVector b("b",N); for(int n=0;n<N;n++) b(n)=1.0/N; auto s=mv("s",NC,K*N); auto u=mv("u",NC,K); auto o=mv("o",NC,K*N); StateValues g; g(C,b,s,u); InertialForces f(rho); f(C,v,b,u,o);
  for(int d=0;d<K;d++){ double t=0,w=0; for(int n=0;n<N;n++){ t+=o(C,K*n+d); w+=s(C,K*n+d); } sx::eq(sx::nm("total",d),t,rho*v(C)*w/N); } others("u",u); others("o",o); }
SC(mass1,mass<1>()) SC(mass2,mass<2>()) SC(mass3,mass<3>())
// residual: elastic + damping - omega^2 inertia, added to what is there
template<int K> static void residual(){ double w=sx_real("w2",0,50); auto e=mv("e",NC,K); auto d=mv("d",NC,K); auto i=mv("i",NC,K); auto r=mv("r",NC,K); structural_dynamics_cell_residual<K>(C,w,e,d,i,r); for(int k=0;k<K;k++) sx::eq(sx::nm("residual",k),r(C,k),was("r",C,k)+e(C,k)+d(C,k)-w*i(C,k)); others("r",r); kept("e",e); kept("d",d); kept("i",i); }
SC(residual4,residual<4>()) SC(residual12,residual<12>()) SC(residual24,residual<24>())
// energies
template<int D> static void elastic(){ const int V=Vg<D>::N; auto s=m3("s",NC,2,V); auto e=m3("e",NC,2,V); auto o=sv("o",NC); ComplexElasticEnergy<V> f; f(C,s,e,o); double x=0; for(int c=0;c<2;c++)for(int k=0;k<V;k++) x+=s(C,c,k)*e(C,c,k); sx::eq("energy",o(C),x); others1("o",o); }
SC(elastic1,elastic<1>()) SC(elastic2,elastic<2>()) SC(elastic3,elastic<3>())
template<int D> static void inertial(){ double w=sx_real("w",0,10),rho=sx_real("rho",0.1,10); ComplexInertialEnergy<D> f(w,rho); auto v=sv("v",NC,0.1,4); auto u=mv("u",NC,2*D); auto o=sv("o",NC); f(C,v,u,o); double x=0; for(int k=0;k<2*D;k++) x+=u(C,k)*u(C,k); sx::eq("energy",o(C),-w*w*rho*v(C)*x); sx::le("sign",o(C),0); others1("o",o); kept("u",u); }
SC(inertial1,inertial<1>()) SC(inertial2,inertial<2>()) SC(inertial3,inertial<3>())
template<int D> static void misfit(){ const int N=D+1, K=2*D*N; auto e=mv("e",NC,K); auto u=mv("u",NC,K); auto o=sv("o",NC); ComputeFrequencyResponseMisfit<D> f; f(C,e,u,o); double x=0; for(int k=0;k<K;k++) x+=(u(C,k)-e(C,k))*(u(C,k)-e(C,k)); sx::eq("misfit",o(C),0.5*x); others1("o",o); kept("e",e); kept("u",u); 
  int k=sx_int32("k",0,K-1); ScalarMultiVectorT<F1> uf("uf",NC,K); ScalarVectorT<F1> of("of",NC); for(int c=0;c<NC;c++)for(int j=0;j<K;j++){ uf(c,j)=u(c,j); if(j==k) uf(c,j)=F1(1,0,u(c,j)); } f(C,e,uf,of); double dk=0; for(int j=0;j<K;j++) if(j==k) dk=u(C,j)-e(C,j); sx::eq("gradient",of(C).dx(0),dk); sx::eq("fad_value",of(C).val(),0.5*x); }
SC(misfit1,misfit<1>()) SC(misfit2,misfit<2>()) SC(misfit3,misfit<3>())
// tensor double dot product: off-diagonal entries count twice
static void ddot(int D){ int K=D==3?6:D==2?4:1; auto a=mv("a",NC,K); auto b=mv("b",NC,K); auto o=sv("o",NC); if(D==1) DoubleDotProduct2ndOrderTensor<1>()(C,a,b,o); else if(D==2) DoubleDotProduct2ndOrderTensor<2>()(C,a,b,o); else DoubleDotProduct2ndOrderTensor<3>()(C,a,b,o); double x=0; for(int k=0;k<K;k++) x+=((D==3&&k>2)||(D==2&&k==2)?2:1)*a(C,k)*b(C,k); sx::eq("ddot",o(C),x); others1("o",o); kept("a",a); kept("b",b); }
SC(ddot1,ddot(1)) SC(ddot2,ddot(2)) SC(ddot3,ddot(3))
// the chain used by the element: at zero frequency and damping the residual is the penalized elastic force; damping is penalized like the forces it comes from
template<int D> static void chain(){ const int N=D+1, K=2*D*N; double w=sx_real("w2",0,50),m=sx_real("mass",0,2),s=sx_real("stiff",0,2),rho=sx_real("rho",0.1,4),x=sx_real("x",0.1,1); auto e=mv("e",NC,K); auto u=mv("u",NC,K); auto v=sv("v",NC,0.1,4); ScalarVector b("b",N); for(int n=0;n<N;n++) b(n)=1.0/N; ScalarMultiVector sa("sa",NC,2*D),in("in",NC,K),da("da",NC,K); auto r=mv("r",NC,K);
  StateValues()(C,b,u,sa); InertialForces{rho}(C,v,b,sa,in); ComplexRayleighDamping<D>(m,s)(C,e,in,da); MSIMP pen(3.0,0.0); ApplyPenalty<MSIMP> ap(pen); ap(C,x,da); ap(C,x,e); ap(C,x,in); structural_dynamics_cell_residual<K>(C,w,e,da,in,r);
  for(int n=0;n<N;n++)for(int d=0;d<2*D;d++){ auto I=[&](int dd){ double t=0; for(int q=0;q<N;q++) t+=u(C,2*D*q+dd)/N; return rho*v(C)*t/N; }; int k=2*D*n+d; int o=d<D?d+D:d-D; int ko=2*D*n+o; double sg=d<D?1:-1; sx::eq(sx::nm("chain",k),r(C,k),was("r",C,k)+x*x*x*(was("e",C,k)+sg*(m*I(o)+s*was("e",C,ko))-w*I(d))); } others("r",r); }
SC(chain1,chain<1>()) SC(chain2,chain<2>()) SC(chain3,chain<3>())
