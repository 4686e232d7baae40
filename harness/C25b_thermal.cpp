// Thermal criteria: value = the documented integral, gradients = derivatives of the value.
#include "sxth.hpp"
#include "sxcrit.hpp"
typedef Plato::OrdinalType O;
template<int D> Crit energy(Th<D>& q,int steps,int free=99,int zfree=99){ criterion(q.p,"e","Scalar Function","Internal Thermal Energy",&q.pen); return make<Plato::Thermal<D>>(q,"e",steps,free,zfree); }
template<int D> void energyValue(std::vector<int> xs,bool two,const Pen& pen,int steps){ Th<D> q(xs,two,pen,false); auto k=energy<D>(q,steps); double o=0; for(auto& u:k.us){ q.u=u; for(int c=0;c<q.m.NC;c++){ Vec g=scalGrad<D>(q.m,c,u,1,0); double s=0; for(double y:g) s+=y*y; o+=q.w(c)*q.cond(c)*s; } } sx::eq("value",k.f->value(k.sol,q.z),o); }
template<int D> void energyGrad(std::vector<int> xs,bool two,const Pen& pen,int steps,Wrt w,int free=99,int zfree=99){ Th<D> q(xs,two,pen,false); auto k=energy<D>(q,steps,free,zfree); gradients<D>(q,k,w); }
S1(energy_1d, energyValue<1>(range(3),true,SIMP,2)) S1(energy_2d, energyValue<2>({1,2},true,RAMP,2)) S1(energy_3d, energyValue<3>({3},true,SIMP,1)) S1(energy_one_domain_3d, energyValue<3>({},false,SIMP,2))
S1(energy_grad_1d, energyGrad<1>({1},true,SIMP,2,UZ)) S1(energy_grad_2d, energyGrad<2>({1},true,SIMP,2,UZ)) S1(energy_grad_3d, energyGrad<3>({},true,RAMP,1,UZ)) S1(energy_shape_1d, energyGrad<1>({0,1},true,SIMP,2,XX)) S1(energy_shape_2d, energyGrad<2>({1},true,SIMP,1,XX)) S1(energy_shape_3d, energyGrad<3>({3},true,SIMP,1,XX,3))
template<int D> double fluxSq(Th<D>& q,int c){ Vec g=scalGrad<D>(q.m,c,q.u,1,0); double s=0,a=q.cond(c)*q.pen(cellMean<D>(q.m,c,q.z,1,0)); for(double y:g) s+=y*y; return s*a*a; }
template<int D> Crit norm(Th<D>& q,double p,int free=99,int zfree=99){ criterion(q.p,"f","Scalar Function","Flux P-Norm",&q.pen).set("Exponent",p); auto k=make<Plato::Thermal<D>>(q,"f",1,free,zfree); for(int c=0;c<q.m.NC;c++) sx_assume(fluxSq<D>(q,c)>0.001); return k; }
template<int D> void normValue(std::vector<int> xs,bool two,const Pen& pen,double p,int free=99,int zfree=99){ Th<D> q(xs,two,pen,false); auto k=norm<D>(q,p,free,zfree); double o=0; for(int c=0;c<q.m.NC;c++) o+=q.m.vol(c)*pow(fluxSq<D>(q,c),p/2); sx::eq("value",k.f->value(k.sol,q.z),pow(o,1/p)); }
template<int D> void normGrad(std::vector<int> xs,bool two,const Pen& pen,double p,Wrt w,int free=99,int zfree=99){ Th<D> q(xs,two,pen,false); auto k=norm<D>(q,p,free,zfree); gradients<D>(q,k,w); }
S1(flux_norm_1d, normValue<1>({1},true,SIMP,4)) S1(flux_norm_2d, normValue<2>({1},true,RAMP,4,99,0)) S1(flux_norm_odd_2d, normValue<2>({},true,SIMP,3)) S1(flux_norm_3d, normValue<3>({},true,SIMP,2))
S1(flux_norm_grad_1d, normGrad<1>({},true,SIMP,4,UZ)) S1(flux_norm_grad_2d, normGrad<2>({},true,SIMP,4,UU,99,0)) S1(flux_norm_grad_z_2d, normGrad<2>({},true,SIMP,4,ZZ,0)) S1(flux_norm_shape_1d, normGrad<1>({1},true,SIMP,3,XX)) S1(flux_norm_shape_2d, normGrad<2>({1},true,SIMP,2,XX,0,0))
// a conductivity that depends on temperature enters the criteria as it enters the residual
template<int D> void dep(const char* type,double p){ Th<D> q({},true,SIMP,true); auto& l=criterion(q.p,"e","Scalar Function",type,&q.pen); if(p>0) l.set("Exponent",p); auto k=make<Plato::Thermal<D>>(q,"e"); double o=0; for(int c=0;c<q.m.NC;c++){ if(p>0){ sx_assume(fluxSq<D>(q,c)>0.001); o+=q.m.vol(c)*pow(fluxSq<D>(q,c),p/2); continue; } Vec g=scalGrad<D>(q.m,c,q.u,1,0); double s=0; for(double y:g) s+=y*y; o+=q.w(c)*q.cond(c)*s; } sx::eq("value",k.f->value(k.sol,q.z),p>0?pow(o,1/p):o); }
S1(energy_dep_2d, dep<2>("Internal Thermal Energy",0)) S1(flux_norm_dep_2d, dep<2>("Flux P-Norm",2))
