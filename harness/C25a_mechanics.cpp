// Structural criteria: value = the documented integral over the solid, gradients = derivatives of the value.
#include "sxcrit.hpp"
#include "Mechanics.hpp"
template<int D> struct Me : Ell<Plato::Mechanics,D> { typedef Ell<Plato::Mechanics,D> B; typedef Plato::Mechanics<D> Ph; Me(std::vector<int> xs,bool two,const Pen& pen):B(xs,two,pen,D){ elasticMaterials(this->p); }
  double energy(int c){ double H[3][3],S[3][3],s=0; dispGrad<D>(this->m,c,this->u,D,0,H); isoStress<D>(this->mat(c),H,S); for(int i=0;i<D;i++) for(int j=0;j<D;j++) s+=0.5*S[i][j]*H[i][j]; return s; } };
template<int D> void energyValue(std::vector<int> xs,bool two,const Pen& pen,int steps){ Me<D> q(xs,two,pen); criterion(q.p,"e","Scalar Function","Internal Elastic Energy",&pen); auto k=make<Plato::Mechanics<D>>(q,"e",steps); double o=0; for(auto& u:k.us){ q.u=u; for(int c=0;c<q.m.NC;c++) o+=q.w(c)*q.energy(c); } sx::eq("value",k.f->value(k.sol,q.z),o); sx::eq("again",k.f->value(k.sol,q.z),o); }
template<int D> void energyGrad(std::vector<int> xs,bool two,const Pen& pen,int steps,Wrt w,int free=99,int zfree=99){ Me<D> q(xs,two,pen); criterion(q.p,"e","Scalar Function","Internal Elastic Energy",&pen); auto k=make<Plato::Mechanics<D>>(q,"e",steps,free,zfree); gradients<D>(q,k,w); }
S1(energy_1d, energyValue<1>(range(3),true,SIMP,2)) S1(energy_2d, energyValue<2>({1,2},true,RAMP,2)) S1(energy_one_domain_2d, energyValue<2>({0,3},false,NOPEN,1)) S1(energy_3d, energyValue<3>({3},true,SIMP,1))
S1(energy_grad_1d, energyGrad<1>(range(3),true,SIMP,2,UZ)) S1(energy_grad_2d, energyGrad<2>({1},true,SIMP,2,UZ)) S1(energy_grad_3d, energyGrad<3>({},false,RAMP,1,UZ)) S1(energy_shape_1d, energyGrad<1>({0,1},true,SIMP,2,XX)) S1(energy_shape_2d, energyGrad<2>({1},true,SIMP,1,XX)) S1(energy_shape2_2d, energyGrad<2>({2},false,RAMP,1,XX)) S1(energy_shape_3d, energyGrad<3>({3},true,SIMP,1,XX,1))
// norm over the solid of the penalized stress, each independent component counted once
template<int D> double stressSq(Me<D>& q,int c){ double H[3][3],S[3][3],s=0; dispGrad<D>(q.m,c,q.u,D,0,H); isoStress<D>(q.mat(c),H,S); for(int i=0;i<D;i++) for(int j=i;j<D;j++) s+=S[i][j]*S[i][j]; double p=q.pen(cellMean<D>(q.m,c,q.z,1,0)); return s*p*p; }
template<int D> Crit norm(Me<D>& q,double p,int free=99,int zfree=99){ criterion(q.p,"s","Scalar Function","Stress P-Norm",&q.pen).set("Exponent",p); auto k=make<Plato::Mechanics<D>>(q,"s",1,free,zfree); for(int c=0;c<q.m.NC;c++) sx_assume(stressSq<D>(q,c)>0.001); return k; }
template<int D> void normValue(std::vector<int> xs,bool two,const Pen& pen,double p,int free=99,int zfree=99){ Me<D> q(xs,two,pen); auto k=norm<D>(q,p,free,zfree); double o=0; for(int c=0;c<q.m.NC;c++) o+=q.m.vol(c)*pow(stressSq<D>(q,c),p/2); sx::eq("value",k.f->value(k.sol,q.z),pow(o,1/p)); }
template<int D> void normGrad(std::vector<int> xs,bool two,const Pen& pen,double p,Wrt w,int free=99,int zfree=99){ Me<D> q(xs,two,pen); auto k=norm<D>(q,p,free,zfree); gradients<D>(q,k,w); }
S1(stress_norm_1d, normValue<1>({1},true,SIMP,sx::real("p",1,6))) S1(stress_norm_2d, normValue<2>({},true,NOPEN,4,99,0)) S1(stress_norm_odd_2d, normValue<2>({},true,SIMP,3)) S1(stress_norm_3d, normValue<3>({},false,SIMP,2))
S1(stress_norm_grad_1d, normGrad<1>({},true,SIMP,sx::real("p",1,6),UZ)) S1(stress_norm_grad_2d, normGrad<2>({},true,NOPEN,2,UU,2)) S1(stress_norm_grad_z_2d, normGrad<2>({},true,SIMP,3,ZZ,0)) S1(stress_norm_shape_1d, normGrad<1>({1},true,SIMP,3,XX)) S1(stress_norm_shape_2d, normGrad<2>({1},true,SIMP,2,XX,0,0))
// energy of the homogenized stress against an assumed strain
template<int D> void eff(std::vector<int> xs,bool two,const Pen& pen,int col,bool grad,Wrt w,int free=99,int zfree=99){ const int V=D==1?1:D==2?3:6; Me<D> q(xs,two,pen); Ad a(V); for(int i=0;i<V;i++) a[i]=sx::real(sx::nm("a",i),-2,2); criterion(q.p,"e","Scalar Function","Effective Energy",&pen).set("Assumed Strain",a); at(q.p,"Cell Problem Forcing").set("Column Index",col); auto k=make<Plato::Mechanics<D>>(q,"e",1,free,zfree); if(grad){ gradients<D>(q,k,w); return; }
  double o=0; for(int c=0;c<q.m.NC;c++){ int n=q.mat(c); double H[3][3],S[3][3]; dispGrad<D>(q.m,c,q.u,D,0,H); isoStress<D>(n,H,S); for(int v=0;v<V;v++){ int i=v<D?v:D==2?0:v==3?1:0,j=v<D?v:D==2?1:v==5?1:2; double C=v==col?(v<D?lame(n)+2*shear(n):shear(n)):v<D&&col<D?lame(n):0; o+=q.w(c)*(C-S[i][j])*a[v]; } } sx::eq("value",k.f->value(k.sol,q.z),o); }
static const Wrt NO{false,false,false,false};
S1(effective_1d, eff<1>({1},true,SIMP,0,false,NO)) S1(effective_2d, for(int c=0;c<3;c++) eff<2>({1},true,RAMP,c,false,NO)) S1(effective_3d, for(int c=0;c<6;c++) eff<3>({},true,SIMP,c,false,NO)) S1(effective_grad_2d, eff<2>({},true,SIMP,2,true,UZ)) S1(effective_grad_3d, eff<3>({},true,SIMP,4,true,UZ)) S1(effective_shape_2d, eff<2>({1},true,SIMP,0,true,XX)) S1(effective_shape_3d, eff<3>({3},true,SIMP,4,true,XX,2))
