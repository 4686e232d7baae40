// C07: element kinematics (strain, gradients, interpolation) and their adjoints (divergence and projection kernels).
#include "sxmain.hpp"
#include "TMKinematics.hpp"
#include "EMKinematics.hpp"
#include "SimplexStabilizedMechanics.hpp"
#include "Kinematics.hpp"
#include "ComplexStrain.hpp"
#include "Strain.hpp"
#include "ComplexStressDivergence.hpp"
#include "StressDivergence.hpp"
#include "FluxDivergence.hpp"
#include "PressureDivergence.hpp"
#include "PressureGradient.hpp"
#include "StrainDivergence.hpp"
#include "ProjectToNode.hpp"
#include "InterpolateFromNodal.hpp"
#include "InterpolateGradientFromScalarNodal.hpp"
#include "StateValues.hpp"
#include "DotProduct.hpp"
#include "DoubleDotProduct2ndOrderTensor.hpp"
#include "VoigtMap.hpp"
using namespace Plato;
static const int NC=3, C=1;   // cells in the workset, cell operated on
#define SC(name,...) static void fn_##name(){ __VA_ARGS__; } SX_TSCENARIO(name,fn_##name)
template<int D> struct Vg { static const int N = D==3?6:(D==2?3:1); static int of(int i,int j){ if(i==j) return i; if(D==2) return 2; int s=i+j; return s==3?3:(s==2?4:5); } };
static ScalarMultiVector mv(const char* n,int c,int k){ ScalarMultiVector v(std::string(n),c,k); for(int i=0;i<c;i++)for(int j=0;j<k;j++) v(i,j)=sx::real(sx::nm((std::string(n)+"_").c_str(),i,j),-10,10); return v; }
static ScalarArray3D m3(const char* n,int c,int k,int l){ ScalarArray3D v(std::string(n),c,k,l); for(int i=0;i<c;i++)for(int j=0;j<k;j++)for(int m=0;m<l;m++) v(i,j,m)=sx::real(sx::nm((std::string(n)+"_").c_str(),i,j,m),-10,10); return v; }
static ScalarVector sv(const char* n,int c){ ScalarVector v(std::string(n),c); for(int i=0;i<c;i++) v(i)=sx::real(sx::nm((std::string(n)+"_").c_str(),i),-10,10); return v; }
// everything but cell C is unchanged
static void others(const char* n,const ScalarMultiVector& v){ for(size_t i=0;i<v.extent(0);i++) if(i!=C) for(size_t j=0;j<v.extent(1);j++) sx::eq(sx::nm((std::string("other_")+n).c_str(),i,j),v(i,j),sx::real(sx::nm((std::string(n)+"_").c_str(),i,j),-10,10)); }
static void others1(const char* n,const ScalarVector& v){ for(size_t i=0;i<v.extent(0);i++) if(i!=C) sx::eq(sx::nm((std::string("other_")+n).c_str(),i),v(i),sx::real(sx::nm((std::string(n)+"_").c_str(),i),-10,10)); }
template<int D> static void chkStrain(const char* n,const ScalarMultiVector& e,const ScalarMultiVector& u,const ScalarArray3D& g,int nd){
  for(int i=0;i<D;i++)for(int j=i;j<D;j++){ double x=0; for(int a=0;a<=D;a++) x+= i==j ? u(C,a*nd+i)*g(C,a,i) : u(C,a*nd+i)*g(C,a,j)+u(C,a*nd+j)*g(C,a,i); sx::eq(sx::nm(n,i,j),e(C,Vg<D>::of(i,j)),x); } }
template<int D> static void chkGrad(const char* n,const ScalarMultiVector& e,const ScalarMultiVector& u,const ScalarArray3D& g,int nd,int off,double s=1){
  for(int i=0;i<D;i++){ double x=0; for(int a=0;a<=D;a++) x+=u(C,a*nd+off)*g(C,a,i); sx::eq(sx::nm(n,i),e(C,i),s*x); } }
// ---- strain / gradient kernels: value, independence of stale output and of the other cells
template<int D> static void tm(){ const int nd=D+1; auto u=mv("u",NC,nd*(D+1)); auto g=m3("g",NC,D+1,D); auto e=mv("e",NC,Vg<D>::N), t=mv("t",NC,D); TMKinematics<D> k; k(C,e,t,u,g); chkStrain<D>("strain",e,u,g,nd); chkGrad<D>("tgrad",t,u,g,nd,D); others("e",e); others("t",t); }
SC(tm1,tm<1>()) SC(tm2,tm<2>()) SC(tm3,tm<3>())
template<int D> static void stm(){ const int nd=D+2; auto u=mv("u",NC,nd*(D+1)); auto g=m3("g",NC,D+1,D); auto e=mv("e",NC,Vg<D>::N), t=mv("t",NC,D), p=mv("p",NC,D); StabilizedTMKinematics<D> k; k(C,e,p,t,u,g); chkStrain<D>("strain",e,u,g,nd); chkGrad<D>("pgrad",p,u,g,nd,D); chkGrad<D>("tgrad",t,u,g,nd,D+1); others("e",e); others("t",t); others("p",p); }
SC(stm1,stm<1>()) SC(stm2,stm<2>()) SC(stm3,stm<3>())
template<int D> static void sm(){ const int nd=D+1; auto u=mv("u",NC,nd*(D+1)); auto g=m3("g",NC,D+1,D); auto e=mv("e",NC,Vg<D>::N), p=mv("p",NC,D); StabilizedKinematics<D> k; k(C,e,p,u,g); chkStrain<D>("strain",e,u,g,nd); chkGrad<D>("pgrad",p,u,g,nd,D); others("e",e); others("p",p); }
SC(sm1,sm<1>()) SC(sm2,sm<2>()) SC(sm3,sm<3>())
template<int D> static void em(){ const int nd=D+1; auto u=mv("u",NC,nd*(D+1)); auto g=m3("g",NC,D+1,D); auto e=mv("e",NC,Vg<D>::N), f=mv("f",NC,D); EMKinematics<D> k; k(C,e,f,u,g); chkStrain<D>("strain",e,u,g,nd); chkGrad<D>("efield",f,u,g,nd,D,-1); others("e",e); others("f",f); }
SC(em1,em<1>()) SC(em2,em<2>()) SC(em3,em<3>())
template<int D> static void cx(){ const int nd=2*D; auto u=mv("u",NC,nd*(D+1)); auto g=m3("g",NC,D+1,D); auto e=m3("e",NC,2,Vg<D>::N); ComplexStrain<D,nd> k; k(C,u,g,e);
  for(int z=0;z<2;z++) for(int i=0;i<D;i++)for(int j=i;j<D;j++){ double x=0; for(int a=0;a<=D;a++) x+= i==j ? u(C,a*nd+z*D+i)*g(C,a,i) : u(C,a*nd+z*D+i)*g(C,a,j)+u(C,a*nd+z*D+j)*g(C,a,i); sx::eq(sx::nm("strain",z,i,j),e(C,z,Vg<D>::of(i,j)),x); }
  for(int c=0;c<NC;c++) if(c!=C) for(int z=0;z<2;z++)for(int j=0;j<Vg<D>::N;j++) sx::eq(sx::nm("other",c,z,j),e(c,z,j),sx::real(sx::nm("e_",c,z,j),-10,10)); }
SC(cx1,cx<1>()) SC(cx2,cx<2>()) SC(cx3,cx<3>())
template<int D,int ND> static void st(){ auto u=mv("u",NC,ND*(D+1)); auto g=m3("g",NC,D+1,D); auto e=mv("e",NC,Vg<D>::N); Strain<D,ND> k; k(C,e,u,g); chkStrain<D>("strain",e,u,g,ND); others("e",e); }
SC(st1,(st<1,1>())) SC(st2,(st<2,2>())) SC(st3,(st<3,3>())) SC(st2o,(st<2,4>())) SC(st3o,(st<3,5>()))
template<int D> static void stg(){ const int N=D*(D+1),V=Vg<D>::N; auto u=mv("u",NC,N),e=mv("e",NC,V); Omega_h::Vector<V> b[N]; for(int i=0;i<N;i++) for(int j=0;j<V;j++) b[i][j]=sx::real(sx::nm("b",i,j),-10,10); Strain<D> k; k(C,e,u,b); for(int j=0;j<V;j++){ double x=0; for(int i=0;i<N;i++) x+=b[i][j]*u(C,i); sx::eq(sx::nm("strain",j),e(C,j),x); } others("e",e); }
SC(stg1,stg<1>()) SC(stg2,stg<2>()) SC(stg3,stg<3>())
template<int D> static void pg(){ double s=sx_real("s",-4,4); auto p=mv("p",NC,D+1); auto g=m3("g",NC,D+1,D); auto o=mv("o",NC,D); PressureGradient<D> k(s); k(C,o,p,g); chkGrad<D>("pgrad",o,p,g,1,0,s); others("o",o); PressureGradient<D> k1; k1(C,o,p,g); chkGrad<D>("unscaled",o,p,g,1,0); }
SC(pg1,pg<1>()) SC(pg2,pg<2>()) SC(pg3,pg<3>())
template<int D,int ND,int OFF> static void ig(){ auto u=mv("u",NC,ND*(D+1)); auto g=m3("g",NC,D+1,D); auto o=mv("o",NC,D); InterpolateGradientFromScalarNodal<D,ND,OFF> k; k(C,g,u,o); chkGrad<D>("grad",o,u,g,ND,OFF); others("o",o); }
SC(ig1,(ig<1,3,1>())) SC(ig2,(ig<2,4,2>())) SC(ig3,(ig<3,5,3>())) SC(ig3b,(ig<3,1,0>()))
// ---- divergence kernels: definition, accumulation onto the existing output, other dofs and cells untouched, adjointness with the strain kernel
template<int D,int ND,int OFF> static void sd(){ const int N=D+1; double s=sx_real("s",-4,4); auto f=mv("f",NC,ND*N), st=mv("st",NC,Vg<D>::N); auto g=m3("g",NC,N,D); auto v=sv("v",NC); StressDivergence<D,ND,OFF> k; k(C,f,st,g,v,s);
  for(int a=0;a<N;a++)for(int d=0;d<ND;d++){ double x=sx::real(sx::nm("f_",C,a*ND+d),-10,10); int i=d-OFF; if(i>=0&&i<D) for(int j=0;j<D;j++) x+=s*v(C)*st(C,Vg<D>::of(i,j))*g(C,a,j); sx::eq(sx::nm("f",a,d),f(C,a*ND+d),x); } others("f",f);
  auto h=mv("f",NC,ND*N); k(C,h,st,g,v); for(int a=0;a<N;a++)for(int i=0;i<D;i++){ double x=sx::real(sx::nm("f_",C,a*ND+i+OFF),-10,10); for(int j=0;j<D;j++) x+=v(C)*st(C,Vg<D>::of(i,j))*g(C,a,j); sx::eq(sx::nm("default_scale",a,i),h(C,a*ND+i+OFF),x); } }
SC(sd1,(sd<1,1,0>())) SC(sd2,(sd<2,2,0>())) SC(sd3,(sd<3,3,0>())) SC(sd2o,(sd<2,4,1>())) SC(sd3o,(sd<3,5,0>())) SC(sd3p,(sd<3,5,2>()))
template<int D> static void adj(){ const int ND=D+1,N=D+1; ScalarMultiVector f("f0",NC,ND*N), e("e0",NC,Vg<D>::N), t("t0",NC,D); auto u=mv("u",NC,ND*N), st=mv("st",NC,Vg<D>::N); auto q=mv("q",NC,D); auto g=m3("g",NC,N,D); auto v=sv("v",NC);
  TMKinematics<D> k; k(C,e,t,u,g); StressDivergence<D,ND> sdv; sdv(C,f,st,g,v); FluxDivergence<D,ND,D> fd; fd(C,f,q,g,v);
  double w=0, x=0; for(int i=0;i<ND*N;i++) w+=f(C,i)*u(C,i); for(int i=0;i<Vg<D>::N;i++) x+=v(C)*st(C,i)*e(C,i); for(int i=0;i<D;i++) x+=v(C)*q(C,i)*t(C,i); sx::eq("virtual_work",w,x);
  // virtual volume work of a pressure
  ScalarMultiVector f2("f2",NC,ND*N); auto p=sv("p",NC); PressureDivergence<D,ND> pd; pd(C,f2,p,g,v); ScalarVector dv("dv",NC); StrainDivergence<D> sdiv; sdiv(C,e,dv); double w2=0; for(int i=0;i<ND*N;i++) w2+=f2(C,i)*u(C,i); sx::eq("volume_work",w2,v(C)*p(C)*dv(C)); }
SC(adj1,adj<1>()) SC(adj2,adj<2>()) SC(adj3,adj<3>())
template<int D> static void cadj(){ const int ND=2*D,N=D+1; auto f=mv("f",NC,ND*N), u=mv("u",NC,ND*N); auto e=m3("e",NC,2,Vg<D>::N), st=m3("st",NC,2,Vg<D>::N), g=m3("g",NC,N,D); auto v=sv("v",NC);
  ComplexStrain<D,ND> k; k(C,u,g,e); ComplexStressDivergence<D,ND> sdv; sdv(C,v,g,st,f);
  for(int a=0;a<N;a++)for(int z=0;z<2;z++)for(int i=0;i<D;i++){ double x=0; for(int j=0;j<D;j++) x+=v(C)*st(C,z,Vg<D>::of(i,j))*g(C,a,j); sx::eq(sx::nm("f",a,z,i),f(C,a*ND+z*D+i),x); }
  double w=0, x=0; for(int i=0;i<ND*N;i++) w+=f(C,i)*u(C,i); for(int z=0;z<2;z++)for(int i=0;i<Vg<D>::N;i++) x+=v(C)*st(C,z,i)*e(C,z,i); sx::eq("virtual_work",w,x); others("f",f); }
SC(cadj1,cadj<1>()) SC(cadj2,cadj<2>()) SC(cadj3,cadj<3>())
template<int D,int ND,int OFF> static void fd(){ const int N=D+1; double s=sx_real("s",-4,4); auto f=mv("f",NC,ND*N), q=mv("q",NC,D); auto g=m3("g",NC,N,D); auto v=sv("v",NC); FluxDivergence<D,ND,OFF> k; k(C,f,q,g,v,s);
  for(int a=0;a<N;a++)for(int d=0;d<ND;d++){ double x=sx::real(sx::nm("f_",C,a*ND+d),-10,10); if(d==OFF) for(int j=0;j<D;j++) x+=s*v(C)*q(C,j)*g(C,a,j); sx::eq(sx::nm("f",a,d),f(C,a*ND+d),x); } others("f",f);
  auto h=mv("f",NC,ND*N); k(C,h,q,g,v); for(int a=0;a<N;a++){ double x=sx::real(sx::nm("f_",C,a*ND+OFF),-10,10); for(int j=0;j<D;j++) x+=v(C)*q(C,j)*g(C,a,j); sx::eq(sx::nm("default_scale",a),h(C,a*ND+OFF),x); } }
SC(fd1,(fd<1,1,0>())) SC(fd2,(fd<2,1,0>())) SC(fd3,(fd<3,1,0>())) SC(fd2o,(fd<2,4,3>())) SC(fd3o,(fd<3,5,4>())) SC(fd3p,(fd<3,4,1>()))
template<int D,int ND,int OFF> static void pd(){ const int N=D+1; double s=sx_real("s",-4,4); auto f=mv("f",NC,ND*N); auto p=sv("p",NC); auto g=m3("g",NC,N,D); auto v=sv("v",NC); PressureDivergence<D,ND,OFF> k; k(C,f,p,g,v,s);
  for(int a=0;a<N;a++)for(int d=0;d<ND;d++){ double x=sx::real(sx::nm("f_",C,a*ND+d),-10,10); if(d>=OFF&&d<OFF+D) x+=s*v(C)*p(C)*g(C,a,d-OFF); sx::eq(sx::nm("f",a,d),f(C,a*ND+d),x); } others("f",f);
  auto h=mv("f",NC,ND*N); k(C,h,p,g,v); for(int a=0;a<N;a++)for(int i=0;i<D;i++) sx::eq(sx::nm("default_scale",a,i),h(C,a*ND+i+OFF),sx::real(sx::nm("f_",C,a*ND+i+OFF),-10,10)+v(C)*p(C)*g(C,a,i)); }
SC(pd1,(pd<1,2,0>())) SC(pd2,(pd<2,2,0>())) SC(pd3,(pd<3,3,0>())) SC(pd2o,(pd<2,4,1>())) SC(pd3o,(pd<3,5,2>()))
template<int D> static void sdiv(){ const int N=Vg<D>::N; auto e=mv("e",NC,N); auto o=sv("o",NC); StrainDivergence<D> k; k(C,e,o); double x=0; for(int i=0;i<D;i++) x+=e(C,i); sx::eq("trace",o(C),x); others1("o",o); }
SC(sdiv1,sdiv<1>()) SC(sdiv2,sdiv<2>()) SC(sdiv3,sdiv<3>())
// ---- interpolation from nodes and its transpose
template<int D,int ND,int OFF,int NM> static void ip(){ const int N=D+1; double s=sx_real("s",-4,4); auto b=sv("b",N); auto u=mv("u",NC,ND*N), o=mv("o",NC,NM), r=mv("r",NC,ND*N), w=mv("w",NC,NM); auto os=sv("os",NC), v=sv("v",NC), ws=sv("ws",NC);
  InterpolateFromNodal<D,ND,OFF,NM> k; k(C,b,u,o); for(int m=0;m<NM;m++){ double x=0; for(int a=0;a<N;a++) x+=b(a)*u(C,a*ND+OFF+m); sx::eq(sx::nm("value",m),o(C,m),x); } others("o",o);
  InterpolateFromNodal<D,ND,OFF> k1; k1(C,b,u,os); double x=0; for(int a=0;a<N;a++) x+=b(a)*u(C,a*ND+OFF); sx::eq("scalar_value",os(C),x); others1("os",os);
  ProjectToNode<D,ND,OFF> p; p(C,v,b,w,r,s); for(int a=0;a<N;a++)for(int d=0;d<ND;d++){ double y=sx::real(sx::nm("r_",C,a*ND+d),-10,10); if(d>=OFF&&d<OFF+NM) y+=s*b(a)*w(C,d-OFF)*v(C); sx::eq(sx::nm("project",a,d),r(C,a*ND+d),y); } others("r",r);
  auto r2=mv("r",NC,ND*N); p(C,v,b,ws,r2,s); for(int a=0;a<N;a++)for(int d=0;d<ND;d++){ double y=sx::real(sx::nm("r_",C,a*ND+d),-10,10); if(d==OFF) y+=s*b(a)*ws(C)*v(C); sx::eq(sx::nm("project_scalar",a,d),r2(C,a*ND+d),y); }
  auto r3=mv("r",NC,ND*N); p(C,v,b,w,r3); for(int a=0;a<N;a++)for(int m=0;m<NM;m++) sx::eq(sx::nm("default_scale",a,m),r3(C,a*ND+OFF+m),sx::real(sx::nm("r_",C,a*ND+OFF+m),-10,10)+b(a)*w(C,m)*v(C)); }
SC(ip1,(ip<1,1,0,1>())) SC(ip2,(ip<2,2,0,2>())) SC(ip3,(ip<3,3,0,3>())) SC(ip2o,(ip<2,4,1,2>())) SC(ip3o,(ip<3,5,1,3>())) SC(ip3p,(ip<3,5,4,1>()))
template<int N,int ND> static void stv(){ auto b=sv("b",N); auto u=mv("u",NC,ND*N), o=mv("o",NC,ND); StateValues k; k(C,b,u,o); for(int d=0;d<ND;d++){ double x=0; for(int a=0;a<N;a++) x+=b(a)*u(C,a*ND+d); sx::eq(sx::nm("value",d),o(C,d),x);} others("o",o); }
SC(stv2,(stv<2,2>())) SC(stv3,(stv<3,4>())) SC(stv4,(stv<4,6>()))
template<int N> static void dot(){ auto a=mv("a",NC,N), b=mv("b",NC,N); auto o=sv("o",NC); DotProduct<N> k; k(C,a,b,o); double x=0; for(int i=0;i<N;i++) x+=a(C,i)*b(C,i); sx::eq("dot",o(C),x); others1("o",o); }
SC(dot1,dot<1>()) SC(dot3,dot<3>()) SC(dot6,dot<6>())
// double contraction of two symmetric tensors given by their Voigt components (2-D: 11,22,12,33)
template<int D> static void dd(){ const int N=D==3?6:(D==2?4:1); auto a=mv("a",NC,N), b=mv("b",NC,N); auto o=sv("o",NC); DoubleDotProduct2ndOrderTensor<D> k; k(C,a,b,o); double x=0; int n=D==1?1:3;
  for(int i=0;i<n;i++)for(int j=0;j<n;j++){ int q; if(D==3) q=Vg<3>::of(i,j); else if(D==1) q=0; else q= i==j ? (i==2?3:i) : ((i==2||j==2)?-1:2); if(q>=0) x+=a(C,q)*b(C,q); } sx::eq("contraction",o(C),x); others1("o",o); }
SC(dd1,dd<1>()) SC(dd2,dd<2>()) SC(dd3,dd<3>())
// Voigt map names the tensor component each Voigt index stands for
template<int D> static void vm(){ VoigtMap<D> m; for(int q=0;q<Vg<D>::N;q++){ int i=m.I[q], j=m.J[q]; sx::ok(sx::nm("in_range",q), i>=0&&i<D&&j>=0&&j<D); if(i>=0&&i<D&&j>=0&&j<D) sx::ieq(sx::nm("voigt",q),Vg<D>::of(i,j),q); } }
SC(vm1,vm<1>()) SC(vm2,vm<2>()) SC(vm3,vm<3>())
// AD: strain of Fad states carries the exact derivative
template<int D> static void ad(){ const int nd=D+1,n=nd*(D+1); typedef Sacado::Fad::SFad<double,n> F; auto u=mv("u",NC,n); auto g=m3("g",NC,D+1,D); ScalarMultiVectorT<F> uf("uf",NC,n), e("e",NC,Vg<D>::N), t("t",NC,D), f("f",NC,n); for(int c=0;c<NC;c++)for(int i=0;i<n;i++) uf(c,i)=F(n,i,u(c,i));
  TMKinematics<D> k; k(C,e,t,uf,g); for(int q=0;q<Vg<D>::N;q++)for(int i=0;i<n;i++) sx::deriv(sx::nm("de",q,i),e(C,q).dx(i),e(C,q).val(),u(C,i)); for(int q=0;q<D;q++)for(int i=0;i<n;i++) sx::deriv(sx::nm("dt",q,i),t(C,q).dx(i),t(C,q).val(),u(C,i));
  ScalarVector v=sv("v",NC); StressDivergence<D,nd> s; s(C,f,e,g,v); for(int r=0;r<n;r++)for(int i=0;i<n;i++){ sx::deriv(sx::nm("df",r,i),f(C,r).dx(i),f(C,r).val(),u(C,i)); sx::eq(sx::nm("sym",r,i),f(C,r).dx(i),f(C,i).dx(r)); } }
SC(ad1,ad<1>()) SC(ad2,ad<2>()) SC(ad3,ad<3>())
