// Thermoelasticity on the small mesh: input list and the law it stands for.
#pragma once
#include "sxell.hpp"
#include "MaterialModel.cpp"
#include "Rank4Voigt.cpp"
#include "IsotropicStiffness.cpp"
#include "LinearThermoelasticMaterial.cpp"
#include "Thermomechanics.hpp"
template<int D> struct Tm : Ell<Plato::Thermomechanics,D> { typedef Ell<Plato::Thermomechanics,D> B; bool dep; double k,al,al1,T0,ts;
  Tm(std::vector<int> xs,bool two,const Pen& pen,bool dep_):B(xs,two,pen,D+1),dep(dep_){ k=sx::real("k",0.5,4); al=sx::real("al",0.25,2); al1=dep?sx::real("al1",-0.5,0.5):0; T0=sx::real("T0",-2,2); ts=sx::real("ts",0.5,2);
    for(int i=0;i<2;i++){ auto& q=at(this->p,i?"Material Models/mB/Thermoelastic":"Material Models/mA/Thermoelastic"); auto& e=q.sublist("Elastic Stiffness");
      if(dep){ q.set("Temperature Dependent",true); q.sublist("Thermal Expansivity").set("c011",al*(i+1)).set("c111",al1); q.sublist("Thermal Conductivity").set("c011",k*(i+1)).set("c111",0.25); e.set("Poissons Ratio",nu[i]); e.sublist("Youngs Modulus").set("c0",Em[i]).set("c1",0.5); }
      else { q.set("Thermal Expansivity",al*(i+1)); q.set("Thermal Conductivity",k*(i+1)); e.set("Poissons Ratio",nu[i]).set("Youngs Modulus",Em[i]); }
      q.set("Reference Temperature",T0).set("Temperature Scaling",ts); } }
  double T(int c){ return cellMean<D>(this->m,c,this->u,D+1,D); }
  void law(int c,double S[3][3],Vec& q){ int i=this->mat(c); double H[3][3]; dispGrad<D>(this->m,c,this->u,D+1,0,H); double a=al*(i+1)+al1*T(c); for(int d=0;d<D;d++) H[d][d]-=ts*a*(T(c)-T0); isoStress<D>(i,H,S); if(dep) for(int x=0;x<D;x++) for(int y=0;y<D;y++) S[x][y]*=(Em[i]+0.5*T(c))/Em[i]; q=scalGrad<D>(this->m,c,this->u,D+1,D); for(auto& y:q) y*=ts*ts*(k*(i+1)+(dep?0.25*T(c):0)); }
  Vec weak(){ Vec o(this->m.N*(D+1),0.0); for(int c=0;c<this->m.NC;c++){ double S[3][3]; Vec q; law(c,S,q); this->addStress(o,c,S,0); this->addFlux(o,c,q,D); } return o; } };
