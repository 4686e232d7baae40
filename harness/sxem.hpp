// Piezoelectricity on the small mesh: input list and the law it stands for.
#pragma once
#include "sxell.hpp"
#include "LinearElectroelasticMaterial.cpp"
#include "Electromechanics.hpp"
template<int D> struct Emx : Ell<Plato::Electromechanics,D> { typedef Ell<Plato::Electromechanics,D> B; double a,e15,e31,e33,p11,p33;
  Emx(std::vector<int> xs,bool two,const Pen& pen):B(xs,two,pen,D+1){ a=sx::real("a",0.5,4); e15=sx::real("e15",-2,2); e31=sx::real("e31",-2,2); e33=sx::real("e33",-2,2); p11=sx::real("p11",0.5,2); p33=sx::real("p33",0.5,2);
    for(int i=0;i<2;i++) at(this->p,i?"Material Models/mB/Isotropic Linear Electroelastic":"Material Models/mA/Isotropic Linear Electroelastic").set("Poissons Ratio",nu[i]).set("Youngs Modulus",Em[i]).set("Alpha",a).set("e15",e15).set("e31",e31).set("e33",e33*(i+1)).set("p11",p11).set("p33",p33*(i+1)); }
  // piezoelectric coupling component: poling along the last axis
  double e(int i,int d,int x,int y){ const int P=D-1; double E33=e33*(i+1); if(d==P) return x==P&&y==P?E33:x==y?e31:0; return (x==d&&y==P)||(x==P&&y==d)?e15:0; }
  void law(int c,double S[3][3],Vec& q,Vec& E){ int i=this->mat(c); double H[3][3]; dispGrad<D>(this->m,c,this->u,D+1,0,H); isoStress<D>(i,H,S); E=scalGrad<D>(this->m,c,this->u,D+1,D); for(auto& y:E) y=-y; q.assign(D,0.0); for(int d=0;d<D;d++){ q[d]=a*a*E[d]*(d==D-1?p33*(i+1):p11); for(int x=0;x<D;x++) for(int y=0;y<D;y++){ q[d]+=a*e(i,d,x,y)*0.5*(H[x][y]+H[y][x]); } } for(int x=0;x<D;x++) for(int y=0;y<D;y++) for(int d=0;d<D;d++) S[x][y]-=a*e(i,d,x,y)*E[d]; }
  Vec weak(){ Vec o(this->m.N*(D+1),0.0); for(int c=0;c<this->m.NC;c++){ double S[3][3]; Vec q,E; law(c,S,q,E); this->addStress(o,c,S,0); this->addFlux(o,c,q,D); } return o; } };
