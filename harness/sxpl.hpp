// Elastoplastic problems on the small mesh: nodal unknowns (displacement, [temperature,] pressure), cell unknowns (accumulated plastic strain, multiplier, plastic strain, backstress), projected pressure gradient.
#pragma once
#include "sxell.hpp"
#include "StabilizedMechanics.hpp"
#include "Plasticity.hpp"
#include "ThermoPlasticity.hpp"
#include "InfinitesimalStrainPlasticity.hpp"
#include "InfinitesimalStrainThermoPlasticity.hpp"
#include "LocalVectorFunctionInc.hpp"
#include "GlobalVectorFunctionInc.hpp"
#include "BasicLocalScalarFunction.hpp"
#include "WeightedLocalScalarFunction.hpp"
template<int D,int T> struct PhT { typedef Plato::InfinitesimalStrainPlasticity<D> G; typedef Plato::Plasticity<D> L; };
template<int D> struct PhT<D,1> { typedef Plato::InfinitesimalStrainThermoPlasticity<D> G; typedef Plato::ThermoPlasticity<D> L; };
inline double cube(double r,double m){ return m+(1-m)*r*r*r; }
inline double square(double r,double m){ return m+(1-m)*r*r; }
template<int D,int T> struct Pl : Ell<Plato::StabilizedMechanics,D> { typedef Ell<Plato::StabilizedMechanics,D> B; typedef typename PhT<D,T>::G GP; typedef typename PhT<D,T>::L LP; static const int N=D==2?4:6, L=2+2*N, P=D+T, dof=D+1+T;
  double ps,k,al,T0,ts,Hi,Hk,sy,lc; Plato::ScalarVector up,c,cp,n; std::shared_ptr<Plato::GlobalVectorFunctionInc<GP>> g; std::shared_ptr<Plato::LocalVectorFunctionInc<LP>> l;
  static int I(int i){ static const int a[4]={0,1,0,2},b[6]={0,1,2,1,0,0}; return D==2?a[i]:b[i]; } static int J(int i){ static const int a[4]={0,1,1,2},b[6]={0,1,2,2,2,1}; return D==2?a[i]:b[i]; } static bool diag(int i){ return I(i)==J(i); }
  // free: which quantities are symbolic (u state, c cell state, p previous cell state, z densities, m material values); the others are fixed binary fractions
  bool has(char k) const { return fr.find(k)!=std::string::npos; } std::string fr;
  double mv(const char* n,double lo,double hi,double d){ return has('m')?sx::real(n,lo,hi):d; }
  void fix(Plato::ScalarVector v,int seed,double sc){ for(int i=0;i<(int)v.size();i++) v(i)=sc*(((i*37+seed*11)%31)-15)/16.0; }
  Pl(std::vector<int> xs,bool two,std::string free="ucpzm"):B(xs,two,SIMP,D+1+T),fr(free){ ps=mv("ps",0.5,2,0.75); Hi=mv("Hi",0.25,2,0.5); Hk=mv("Hk",0.25,2,0.375); sy=mv("sy",0.5,2,0.625); lc=1; k=al=T0=0; ts=1; if(T){ k=mv("k",0.5,4,1.5); al=mv("al",0.25,2,0.75); T0=mv("T0",-2,2,-0.25); ts=mv("ts",0.5,2,0.5); }
    at(this->p,"Material Models").set("Pressure Scaling",ps); if(T) at(this->p,"Material Models").set("Temperature Scaling",ts);
    for(int i=0;i<2;i++){ std::string s=i?"Material Models/mB/":"Material Models/mA/"; auto& q=at(this->p,(s+(T?"Isotropic Linear Thermoelastic":"Isotropic Linear Elastic")).c_str()); q.set("Poissons Ratio",nu[i]).set("Youngs Modulus",Em[i]); if(T) q.set("Thermal Expansion Coefficient",al*(i+1)).set("Thermal Conductivity Coefficient",k*(i+1)).set("Reference Temperature",T0);
      at(this->p,(s+"Plasticity Model/J2 Plasticity").c_str()).set("Hardening Modulus Isotropic",Hi*(i+1)).set("Hardening Modulus Kinematic",Hk*(i+1)).set("Initial Yield Stress",sy*(i+1)).set("Elastic Properties Penalty Exponent",3.0).set("Elastic Properties Minimum Ersatz",0.125).set("Plastic Properties Penalty Exponent",2.0).set("Plastic Properties Minimum Ersatz",0.25); } }
  void start(){ this->model(); up=vec("up",this->m.N*dof,-1,1); c=vec("c",this->m.NC*L,-1,1); cp=vec("cp",this->m.NC*L,-1,1); n=vec("n",this->m.N*D,-1,1); if(!has('u')) fix(this->u,1,1); if(!has('c')) fix(c,2,0.25); if(!has('p')) fix(cp,3,0.25); if(!has('z')) for(int i=0;i<this->m.N;i++) if(i!=2||!has('y')) this->z(i)=0.5; }
  void global(){ g=std::make_shared<Plato::GlobalVectorFunctionInc<GP>>(*this->sm,this->dm,this->p,this->t); }
  void local(){ l=std::make_shared<Plato::LocalVectorFunctionInc<LP>>(*this->sm,this->dm,this->p); }
  double rho(int e){ return cellMean<D>(this->m,e,this->z,1,0); }
  double theta(int e,const Plato::ScalarVector& u){ return T?al*(this->mat(e)+1)*(ts*cellMean<D>(this->m,e,u,dof,D)-T0):0.0; }
  void strain(int e,const Plato::ScalarVector& u,double* o){ double H[3][3]={{0}}; dispGrad<D>(this->m,e,u,dof,0,H); for(int i=0;i<N;i++) o[i]=diag(i)?H[I(i)][I(i)]:H[I(i)][J(i)]+H[J(i)][I(i)]; if(D==2) o[3]=0; }
  void elastic(int e,const Plato::ScalarVector& u,const Plato::ScalarVector& c,double* o){ strain(e,u,o); double t=theta(e,u); for(int i=0;i<N;i++) o[i]-=c(e*L+2+i)+(diag(i)?t:0); }
  void deviator(double G,const double* e,double* s){ double t=0; for(int i=0;i<N;i++) if(diag(i)) t+=e[i]; for(int i=0;i<N;i++) s[i]=diag(i)?2*G*(e[i]-t/3):G*e[i]; }
  double K(int e){ int i=this->mat(e); return lame(i)+2*shear(i)/3; }
  void cauchy(int e,const double* el,double pen,double* s){ deviator(pen*shear(this->mat(e)),el,s); double t=0; for(int i=0;i<N;i++) if(diag(i)) t+=el[i]; for(int i=0;i<N;i++) if(diag(i)) s[i]+=pen*K(e)*t; }
  Vec weak(){ auto& m=this->m; auto& u=this->u; Vec o(m.N*dof,0.0); for(int e=0;e<m.NC;e++){ int q=this->mat(e); double el[6],s[6],st[6],S[3][3]={{0}},dv=0,p=ps*cellMean<D>(m,e,u,dof,P),a=this->pen(rho(e)),v=m.vol(e); elastic(e,u,c,el); strain(e,u,st); deviator(shear(q),el,s); for(int i=0;i<N;i++){ S[I(i)][J(i)]=S[J(i)][I(i)]=s[i]; if(diag(i)) dv+=st[i]; } this->addStress(o,e,S,0);
      for(int b=0;b<=D;b++){ for(int i=0;i<D;i++) o[m.v(e,b)*dof+i]+=v*p*m.grad(e,b)[i]; o[m.v(e,b)*dof+P]+=v/(D+1)*ps*(dv-3*theta(e,u)-p/(a*K(e))); }
      Vec gp=scalGrad<D>(m,e,u,dof,P),f(D); double tau=pow(v,2.0/3.0)/(2*shear(q)); for(int i=0;i<D;i++) f[i]=-ps*tau*(ps*gp[i]-cellMean<D>(m,e,n,D,i)); this->addFlux(o,e,f,P); if(T){ Vec h=scalGrad<D>(m,e,u,dof,D); for(int i=0;i<D;i++) h[i]*=k*(q+1)*ts; this->addFlux(o,e,h,D); } } return o; }
};
