// Heat conduction on the small mesh: input list and the law it stands for.
#pragma once
#include "sxell.hpp"
#include "MaterialModel.cpp"
#include "Rank4Voigt.cpp"
#include "IsotropicStiffness.cpp"
#include "Thermal.hpp"
template<int D> struct Th : Ell<Plato::Thermal,D> { typedef Ell<Plato::Thermal,D> B; bool dep; double k[2],k1[2];
  Th(std::vector<int> xs,bool two,const Pen& pen,bool dep_):B(xs,two,pen,1),dep(dep_){ for(int i=0;i<2;i++){ k[i]=sx::real(sx::nm("k",i),0.5,4); k1[i]=dep?sx::real(sx::nm("k1",i),-0.25,0.25):0; auto& q=at(this->p,i?"Material Models/mB/Thermal Conduction":"Material Models/mA/Thermal Conduction"); if(dep){ q.set("Temperature Dependent",true); q.sublist("Thermal Conductivity").set("c011",k[i]).set("c111",k1[i]); } else q.set("Thermal Conductivity",k[i]); } }
  double cond(int c){ int i=this->mat(c); return k[i]+k1[i]*cellMean<D>(this->m,c,this->u,1,0); }
  Vec weak(){ Vec o(this->m.N,0.0); for(int c=0;c<this->m.NC;c++){ Vec g=scalGrad<D>(this->m,c,this->u,1,0); for(auto& y:g) y*=cond(c); this->addFlux(o,c,g,0); } return o; } };
