// C08: isotropic elastic constitutive kernels. Stress terms: 3D 11,22,33,23,13,12; 2D 11,22,12,33 (plane strain, out-of-plane last); 1D 11. Shear strains are engineering strains.
#include "sxplato.hpp"
#include "ComputeCauchyStress.hpp"
#include "ComputeDeviatoricStress.hpp"
#include "ComputeDeviatoricStrain.hpp"
#include "ComputeElasticWork.hpp"
#include "ComputeStabilization.hpp"
#include <Teuchos_ParameterList.hpp>
#include "AnalyzeMacros.hpp"
#include "IsotropicMaterialUtilities.hpp"
template<int D> struct St; 
template<> struct St<1>{ static const int N=1; static bool normal(int){ return true; } };
template<> struct St<2>{ static const int N=4; static bool normal(int i){ return i!=2; } };
template<> struct St<3>{ static const int N=6; static bool normal(int i){ return i<3; } };
template<int D> static double tr(const ScalarMultiVector& e,int c=C){ double t=0; for(int i=0;i<St<D>::N;i++) if(St<D>::normal(i)) t+=e(c,i); return t; }
// the one-dimensional strain tensor is uniaxial: e11 only
template<int D> static double law(const ScalarMultiVector& e,int i,double K,double G){ double t=tr<D>(e); return St<D>::normal(i) ? 2*G*e(C,i)+(K-2*G/3)*t : G*e(C,i); }
template<int D> static void cauchy(){ const int N=St<D>::N; double K=sx_real("K",0.1,100),G=sx_real("G",0.1,100); auto e=mv("e",NC,N), s=mv("s",NC,N); ComputeCauchyStress<D> k; k(C,K,G,e,s);
  for(int i=0;i<N;i++) sx::eq(sx::nm("documented_law",i),s(C,i),law<D>(e,i,K,G));
  // recorded deviations (known_findings.json) are the only ones accepted: the law or exactly the recorded expression
  if(D==3) for(int i=0;i<3;i++){ double t=e(C,0)+e(C,1)+e(C,3), rec=2*G*e(C,i)+(K-2*G/3)*t; sx::eq(sx::nm("nothing_but_recorded_deviation",i),(s(C,i)-rec)*(s(C,i)-law<D>(e,i,K,G)),0); }
  if(D==1) sx::eq("nothing_but_recorded_deviation",(s(C,0)-(4*G/3*e(C,0)+K*e(C,0)/3))*(s(C,0)-law<D>(e,0,K,G)),0);
  others("s",s); kept("e",e); }
SC(cauchy1,cauchy<1>()) SC(cauchy2,cauchy<2>()) SC(cauchy3,cauchy<3>())
template<int D> static void devstress(){ const int N=St<D>::N; double G=sx_real("G",0.1,100); auto e=mv("e",NC,N), s=mv("s",NC,N); ComputeDeviatoricStress<D> k; k(C,G,e,s); double t=tr<D>(e);
  for(int i=0;i<N;i++) sx::eq(sx::nm("deviatoric",i),s(C,i),St<D>::normal(i)?2*G*(e(C,i)-t/3):G*e(C,i)); if(D>1) sx::eq("traceless",tr<D>(s),0); others("s",s); kept("e",e); }
SC(devstress1,devstress<1>()) SC(devstress2,devstress<2>()) SC(devstress3,devstress<3>())
template<int D> static void devstrain(){ const int N=St<D>::N; auto e=mv("e",NC,N), s=mv("s",NC,N); ComputeDeviatoricStrain<D> k; k(C,e,s); double t=tr<D>(e);
  for(int i=0;i<N;i++) sx::eq(sx::nm("deviatoric",i),s(C,i),St<D>::normal(i)?e(C,i)-t/3:e(C,i)); if(D>1) sx::eq("traceless",tr<D>(s),0); others("s",s); kept("e",e); }
SC(devstrain1,devstrain<1>()) SC(devstrain2,devstrain<2>()) SC(devstrain3,devstrain<3>())
// consistency: Cauchy stress minus its mean is the deviatoric stress of the same strain (2D), uniform dilatation gives no deviatoric stress
static void split2(){ const int N=4; double K=sx_real("K",0.1,100),G=sx_real("G",0.1,100); auto e=mv("e",NC,N); ScalarMultiVector s("s0",NC,N),d("d0",NC,N); ComputeCauchyStress<2>()(C,K,G,e,s); ComputeDeviatoricStress<2>()(C,G,e,d); double p=tr<2>(s)/3; sx::eq("pressure",p,K*tr<2>(e));
  for(int i=0;i<N;i++) sx::eq(sx::nm("split",i),s(C,i),d(C,i)+(i!=2?p:0)); }
SC(split2,split2())
template<int D> static void work(){ const int N=St<D>::N; double K=sx_real("K",0.1,100),G=sx_real("G",0.1,100); auto e=mv("e",NC,N), d=mv("d",NC,N); auto w=sv("w",NC); ComputeElasticWork<D> k; k(C,G,K,e,d,w); double x=0; for(int i=0;i<N;i++) x+=(St<D>::normal(i)?1:2)*d(C,i)*d(C,i);
  sx::eq("work",w(C),G*x+K/2*tr<D>(e)*tr<D>(e)); sx::le("nonnegative",0,w(C)); others1("w",w); kept("e",e); kept("d",d); }
SC(work1,work<1>()) SC(work2,work<2>()) SC(work3,work<3>())
// stabilization term: tau * (scaling * pressure gradient - projected pressure gradient) scaled by the pressure scaling, tau = volume^(2/3)/(2 G)
template<int D> static void stab(){ double a=sx_real("a",0.1,10),G=sx_real("G",0.1,100); auto v=sv("v",NC,0.01,10); auto p=mv("p",NC,D),q=mv("q",NC,D),s=mv("s",NC,D); ComputeStabilization<D> k(a,G); k(C,v,p,q,s);
  for(int i=0;i<D;i++) sx::eq(sx::nm("stab",i),s(C,i),a*pow(v(C),2.0/3.0)/(2*G)*(a*p(C,i)-q(C,i))); others("s",s); kept("p",p); kept("q",q); kept1("v",v,0.01,10); }
SC(stab1,stab<1>()) SC(stab2,stab<2>()) SC(stab3,stab<3>())
// elastic moduli
static void moduli(){ double E=sx_real("E",0.1,1000),nu=sx_real("nu",-0.99,0.49); double G=compute_shear_modulus(E,nu),K=compute_bulk_modulus(E,nu); sx::eq("G",2*(1+nu)*G,E); sx::eq("K",3*(1-2*nu)*K,E); sx::eq("E_from_KG",9*K*G/(3*K+G),E); sx::ok("positive",G>0&&K>0);
  Teuchos::ParameterList l; auto& m=l.sublist("Material Model").sublist("Isotropic Linear Elastic"); m.set<double>("Youngs Modulus",E); m.set<double>("Poissons Ratio",nu);
  sx::eq("parsed_E",parse_elastic_modulus(m),E); sx::eq("parsed_nu",parse_poissons_ratio(m),nu); sx::eq("list_G",compute_shear_modulus(l),G); sx::eq("list_K",compute_bulk_modulus(l),K); }
SC(moduli,moduli())
static void missing(){ int w=sx_int32("w",0,3); Teuchos::ParameterList l; auto& mm=l.sublist("Material Model"); if(w!=3){ auto& m=mm.sublist("Isotropic Linear Elastic"); if(w&1) m.set<double>("Youngs Modulus",3.0); if(w&2) m.set<double>("Poissons Ratio",0.3);
    sx::ok("E_rejected",sx::throws([&]{ parse_elastic_modulus(m); })==!(w&1)); sx::ok("nu_rejected",sx::throws([&]{ parse_poissons_ratio(m); })==!(w&2)); }
  else mm.sublist("Something Else").set<double>("Youngs Modulus",3.0);
  sx::ok("K_rejected",sx::throws([&]{ compute_bulk_modulus(l); })); sx::ok("G_rejected",sx::throws([&]{ compute_shear_modulus(l); })); }
SC(missing,missing())
