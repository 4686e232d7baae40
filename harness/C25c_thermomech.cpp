// Thermomechanical criterion: value = the documented integral, gradients = derivatives of the value.
#include "sxtm.hpp"
#include "sxcrit.hpp"
template<int D> Crit energy(Tm<D>& q,int steps,int free=99,int zfree=99){ criterion(q.p,"e","Scalar Function","Internal Thermoelastic Energy",&q.pen); return make<Plato::Thermomechanics<D>>(q,"e",steps,free,zfree); }
template<int D> void value(std::vector<int> xs,bool two,const Pen& pen,bool dep,int steps){ Tm<D> q(xs,two,pen,dep); auto k=energy<D>(q,steps); double o=0; for(auto& u:k.us){ q.u=u; for(int c=0;c<q.m.NC;c++){ double S[3][3],H[3][3]; Vec f,g; q.law(c,S,f); dispGrad<D>(q.m,c,u,D+1,0,H); g=scalGrad<D>(q.m,c,u,D+1,D); double s=0; for(int i=0;i<D;i++){ s+=f[i]*g[i]; for(int j=0;j<D;j++) s+=S[i][j]*H[i][j]; } o+=q.w(c)*s; } } sx::eq("value",k.f->value(k.sol,q.z),o); }
template<int D> void grad(std::vector<int> xs,bool two,const Pen& pen,bool dep,int steps,Wrt w,int free=99,int zfree=99){ Tm<D> q(xs,two,pen,dep); auto k=energy<D>(q,steps,free,zfree); gradients<D>(q,k,w); }
S1(energy_1d, value<1>({1},true,SIMP,false,2)) S1(energy_2d, value<2>({1},true,RAMP,false,1)) S1(energy_dep_2d, value<2>({},true,SIMP,true,1)) S1(energy_3d, value<3>({},true,SIMP,false,1))
S1(energy_grad_1d, grad<1>({},true,SIMP,false,2,UZ)) S1(energy_grad_2d, grad<2>({},true,SIMP,false,1,UZ)) S1(energy_grad_dep_2d, grad<2>({},true,SIMP,true,1,UZ,2)) S1(energy_grad_3d, grad<3>({},true,SIMP,false,1,UZ,2)) S1(energy_shape_1d, grad<1>({1},true,SIMP,false,1,XX)) S1(energy_shape_2d, grad<2>({1},true,SIMP,false,1,XX,2))
// leaving the thermal strain out of the elastic part
