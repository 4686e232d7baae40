// C18: heat conduction and heat content of a cell.
#include "sxplato.hpp"
#include <Teuchos_ParameterList.hpp>
#include "MaterialModel.hpp"
#include "MaterialModel.cpp"
#include "Rank4Voigt.cpp"
#include "IsotropicStiffness.cpp"
#include "ThermalConductivityMaterial.hpp"
#include "ThermalMassMaterial.hpp"
#include "ThermalFlux.hpp"
#include "ThermalContent.hpp"
#include "SimplexThermal.hpp"
#include "FluxDivergence.hpp"
typedef Teuchos::ParameterList PL; typedef Sacado::Fad::SFad<double,1> F1;
static double quad(double a,double b,double c,double T){ return a+b*T+c*T*T; }
static std::string key(int o,int i,int j){ return o<0?sx::nm("c",(i+1)*10+j+1):"c"+std::to_string(o)+std::to_string((i+1)*10+j+1); }
// a symmetric conductivity tensor, constant (kind 0 scalar, 1 tensor) or quadratic in temperature (kind 2 scalar, 3 tensor)
template<int D> struct Cond { double c[3][D][D]; Teuchos::RCP<MaterialModel<D>> m;
  Cond(int kind){ bool fn=kind>1, iso=kind%2==0; PL in; PL& q=in.sublist("Material Models").sublist("M").sublist("Thermal Conduction");
    for(int o=0;o<3;o++)for(int i=0;i<D;i++)for(int j=i;j<D;j++) c[o][i][j]=c[o][j][i]= (!fn&&o)||(iso&&i!=j)?0: iso?sx::real(sx::nm("k",o),0.1,5):sx::real(sx::nm("k",o,i,j),-5,5);
    if(kind==0) q.set<double>("Thermal Conductivity",c[0][0][0]);
    else { PL& t=q.sublist("Thermal Conductivity"); for(int o=0;o<3;o++)for(int i=0;i<D;i++)for(int j=i;j<D;j++) if((fn||o==0)&&!(iso&&(i||j))) t.set<double>(key(fn?o:-1,i,j),c[o][i][j]); }
    if(fn) q.set<bool>("Temperature Dependent",true);
    ThermalConductionModelFactory<D> f(in); m=f.create("M"); }
  double k(int i,int j,double T){ return quad(c[0][i][j],c[1][i][j],c[2][i][j],T); } };
template<int D> static void flux(int kind){ Cond<D> k(kind); ThermalFlux<D> f(k.m); auto g=mv("g",NC,D); auto q=mv("q",NC,D); auto T=sv("T",NC,0,3); f(C,q,g,T); 
  for(int i=0;i<D;i++){ double e=0; for(int j=0;j<D;j++) e-=k.k(i,j,T(C))*g(C,j); sx::eq(sx::nm("fourier",i),q(C,i),e); } others("q",q); kept("g",g); kept1("T",T,0,3);
  if(kind<2){ auto p=mv("p",NC,D); f(C,p,g); for(int i=0;i<D;i++) sx::eq(sx::nm("no_temperature",i),p(C,i),q(C,i)); others("p",p); }
  if(kind%2==0){ double w=0; for(int i=0;i<D;i++) w+=q(C,i)*g(C,i); sx::le("heat_flows_down",w,0); }
  ScalarVectorT<F1> Tf("Tf",NC); ScalarMultiVectorT<F1> qf("qf",NC,D); for(int c=0;c<NC;c++) Tf(c)=F1(1,0,T(c)); f(C,qf,g,Tf); for(int i=0;i<D;i++){ double e=0; for(int j=0;j<D;j++) e-=(k.c[1][i][j]+2*k.c[2][i][j]*T(C))*g(C,j); sx::eq(sx::nm("fad_value",i),qf(C,i).val(),q(C,i)); sx::eq(sx::nm("d_dT",i),qf(C,i).dx(0),e); } }
#define FX(D) SC(flux##D##_0,flux<D>(0)) SC(flux##D##_1,flux<D>(1)) SC(flux##D##_2,flux<D>(2)) SC(flux##D##_3,flux<D>(3))
FX(1) FX(2) FX(3)
template<int D> static void content(bool fn){ double r[3],c[3]; for(int o=0;o<3;o++){ r[o]=o&&!fn?0:sx::real(sx::nm("rho",o),0,5); c[o]=o&&!fn?0:sx::real(sx::nm("cp",o),0,5); } PL in; PL& q=in.sublist("Material Models").sublist("M").sublist("Thermal Mass"); 
  if(!fn){ q.set<double>("Mass Density",r[0]); q.set<double>("Specific Heat",c[0]); } else { q.set<bool>("Temperature Dependent",true); PL& a=q.sublist("Mass Density"); PL& b=q.sublist("Specific Heat"); for(int o=0;o<3;o++){ a.set<double>(sx::nm("c",o),r[o]); b.set<double>(sx::nm("c",o),c[o]); } }
  ThermalMassModelFactory<D> fac(in); auto m=fac.create("M"); ThermalContent<D> f(m); auto h=sv("h",NC); auto d=sv("d",NC); auto T=sv("T",NC,0,3); f(C,h,d,T); double k=quad(r[0],r[1],r[2],T(C))*quad(c[0],c[1],c[2],T(C)); sx::eq("content",h(C),k*d(C)); others1("h",h); kept1("d",d); kept1("T",T,0,3);
  if(!fn){ auto p=sv("p",NC); f(C,p,d); sx::eq("no_temperature",p(C),h(C)); others1("p",p); }
  ScalarVectorT<F1> Tf("Tf",NC),hf("hf",NC); for(int i=0;i<NC;i++) Tf(i)=F1(1,0,T(i)); f(C,hf,d,Tf); sx::eq("fad_value",hf(C).val(),h(C)); sx::deriv("d_dT",hf(C).dx(0),hf(C).val(),T(C)); }
SC(content1,content<1>(false)) SC(content2,content<2>(false)) SC(content3,content<3>(false)) SC(content1f,content<1>(true)) SC(content2f,content<2>(true)) SC(content3f,content<3>(true))
// element conduction matrix: gradient, Fourier's law and flux divergence together are symmetric, vanish on uniform temperature, and dissipate
template<int D> static void element(int kind){ const int N=D+1; Cond<D> k(kind); ThermalFlux<D> f(k.m); auto B=m3("B",NC,N,D); for(int d=0;d<D;d++){ double s=0; for(int n=0;n<N-1;n++) s+=B(C,n,d); B(C,N-1,d)=-s; } auto v=sv("v",NC,0.1,3); ScalarVector T("T",NC); FluxDivergence<D> dv;
  auto run=[&](const ScalarMultiVector& t){ ScalarMultiVector g("g",NC,D),q("q",NC,D),r("r",NC,N); for(int d=0;d<D;d++)for(int n=0;n<N;n++) g(C,d)+=t(C,n)*B(C,n,d); f(C,q,g,T); dv(C,r,q,B,v,-1.0); return r; };
  auto t=mv("t",NC,N); auto s=mv("s",NC,N); auto rt=run(t); auto rs=run(s); double a=0,b=0,w=0; for(int n=0;n<N;n++){ a+=s(C,n)*rt(C,n); b+=t(C,n)*rs(C,n); w+=rt(C,n); } sx::eq("symmetric",a,b); sx::eq("conserves_heat",w,0);
  if(kind==0){ double e=0; for(int n=0;n<N;n++) e+=t(C,n)*rt(C,n); double x=0; for(int d=0;d<D;d++){ double g=0; for(int n=0;n<N;n++) g+=B(C,n,d)*t(C,n); x+=g*g; } sx::eq("dissipation",e,k.k(0,0,0)*v(C)*x); }
  double u=sx_real("u",-5,5); ScalarMultiVector c("c",NC,N); for(int n=0;n<N;n++) c(C,n)=u; auto rc=run(c); for(int n=0;n<N;n++) sx::eq(sx::nm("uniform",n),rc(C,n),0); }
SC(element1,element<1>(0)) SC(element2,element<2>(0)) SC(element3,element<3>(0)) SC(element2a,element<2>(1)) SC(element3a,element<3>(1))
