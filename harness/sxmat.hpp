// Material definitions shared by the mesh-level checks: parameter lists and the tensors they stand for.
#pragma once
#include "sxmesh.hpp"
#include "LinearElasticMaterial.cpp"
#include "IsotropicLinearElasticMaterial.cpp"
#include "CubicLinearElasticMaterial.cpp"
#include "CustomLinearElasticMaterial.cpp"
#include "CustomMaterial.cpp"
#include "OrthotropicLinearElasticMaterial.cpp"
static const double Em[2]={2.0,4.0}, nu[2]={0.25,0.125};
static const char* matNames[2]={"mA","mB"};
inline double lame(int k){ return Em[k]*nu[k]/((1+nu[k])*(1-2*nu[k])); }
inline double shear(int k){ return Em[k]/(2*(1+nu[k])); }
inline void elasticMaterials(Teuchos::ParameterList& p){ for(int k=0;k<2;k++) at(p,k?"Material Models/mB/Isotropic Linear Elastic":"Material Models/mA/Isotropic Linear Elastic").set("Poissons Ratio",nu[k]).set("Youngs Modulus",Em[k]); }
// displacement gradient / scalar gradient of cell c: dof d..d+D-1 (or d) of per dofs per node
template<int D> void dispGrad(const Msh<D>& m,int c,const Plato::ScalarVector& u,int per,int off,double H[3][3]){ for(int i=0;i<D;i++) for(int j=0;j<D;j++){ H[i][j]=0; for(int n=0;n<=D;n++) H[i][j]+=u(m.v(c,n)*per+off+i)*m.grad(c,n)[j]; } }
template<int D> Vec scalGrad(const Msh<D>& m,int c,const Plato::ScalarVector& u,int per,int off){ Vec g(D,0.0); for(int j=0;j<D;j++) for(int n=0;n<=D;n++) g[j]+=u(m.v(c,n)*per+off)*m.grad(c,n)[j]; return g; }
template<int D> double cellMean(const Msh<D>& m,int c,const Plato::ScalarVector& u,int per,int off){ double s=0; for(int n=0;n<=D;n++) s+=u(m.v(c,n)*per+off)/(D+1); return s; }
template<int D> void isoStress(int k,double H[3][3],double S[3][3]){ double tr=0; for(int i=0;i<D;i++) tr+=H[i][i]; for(int i=0;i<D;i++) for(int j=0;j<D;j++) S[i][j]=shear(k)*(H[i][j]+H[j][i])+(i==j?lame(k)*tr:0); }
// penalty functions of a density
struct Pen { const char* type; double p,min; double operator()(double r) const { if(!strcmp(type,"SIMP")) return min+(1-min)*r*r*r; if(!strcmp(type,"RAMP")) return min+(1-min)*r/(1+p*(1-r)); return 1.0; }
  void put(Teuchos::ParameterList& l) const { l.set("Type",type); if(strcmp(type,"NoPenalty")){ l.set("Exponent",p); l.set("Minimum Value",min); } } };
static const Pen SIMP{"SIMP",3.0,0.125}, RAMP{"RAMP",2.0,0.25}, NOPEN{"NoPenalty",0,0};
