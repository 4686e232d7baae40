// Transient heat conduction: residual = weak form with capacity, matrices and criterion gradients = derivatives.
#include "sxth.hpp"
#include "sxtime.hpp"
#include "sxcrit.hpp"
#include "parabolic/VectorFunction.hpp"
#include "parabolic/PhysicsScalarFunction.hpp"
template<int D> struct Ht : Th<D> { double rc[2]; std::shared_ptr<Plato::Parabolic::VectorFunction<Plato::Thermal<D>>> g;
  Ht(std::vector<int> xs,bool two,const Pen& pen,bool dep):Th<D>(xs,two,pen,dep){ this->t="Parabolic"; pen.put(at(this->p,"Parabolic/Penalty Function")); for(int i=0;i<2;i++){ double r=sx::real(sx::nm("rho",i),0.5,4),c=sx::real(sx::nm("cp",i),0.5,4); rc[i]=r*c; at(this->p,i?"Material Models/mB/Thermal Mass":"Material Models/mA/Thermal Mass").set("Mass Density",r).set("Specific Heat",c); } }
  void start(){ this->model(); g=std::make_shared<Plato::Parabolic::VectorFunction<Plato::Thermal<D>>>(*this->sm,this->dm,this->p,this->t); } };
template<int D> void value(std::vector<int> xs,bool two,const Pen& pen,bool dep,bool ld){ Ht<D> q(xs,two,pen,dep); if(ld) q.flux("Natural Boundary Conditions","h"); q.start(); auto y=fields(q,2); auto o=q.weak(); for(int c=0;c<q.m.NC;c++) addRate<D>(q,o,c,y[1],0,1,q.rc[q.mat(c)]); if(ld) q.addTraction(o,"h",1,0,1.0); residualIs<2,D>(*q.g,q,y,o); }
template<int D> void derivs(std::vector<int> xs,bool two,const Pen& pen,bool dep,bool ld,WrtT w){ Ht<D> q(xs,two,pen,dep); if(ld) q.flux("Natural Boundary Conditions","h"); q.start(); auto y=fields(q,2); residualDerivs<2,D>(*q.g,q,y,w); }
S1(heat_1d, value<1>(range(3),true,SIMP,false,true)) S1(heat_2d, value<2>({1,2},true,RAMP,false,true)) S1(heat_3d, value<3>({3},true,SIMP,false,true)) S1(heat_one_domain_2d, value<2>({0},false,SIMP,false,false)) S1(heat_dep_2d, value<2>({},true,SIMP,true,true)) S1(heat_dep_3d, value<3>({},false,RAMP,true,true))
S1(heat_jac_1d, derivs<1>({1},true,SIMP,false,true,TS)) S1(heat_jac_2d, derivs<2>({1},true,SIMP,false,true,TS)) S1(heat_jac_3d, derivs<3>({},true,SIMP,false,true,TS)) S1(heat_jac_dep_2d, derivs<2>({},true,SIMP,true,true,TS)) S1(heat_z_2d, derivs<2>({},true,RAMP,true,true,TZ)) S1(heat_z_3d, derivs<3>({},true,SIMP,false,true,TZ)) S1(heat_shape_1d, derivs<1>(range(3),true,SIMP,false,true,TX)) S1(heat_shape_2d, derivs<2>({1},true,SIMP,true,true,TX)) S1(heat_shape3_2d, derivs<2>({3},false,RAMP,false,true,TX)) S1(heat_shape_3d, derivs<3>({3},true,SIMP,false,false,TX))
template<int D> void crit(const char* type,std::vector<int> xs,bool two,const Pen& pen,bool dep,int grad,WrtT w,int free=99){ Ht<D> q(xs,two,pen,dep); criterion(q.p,"e","Scalar Function",type,&q.pen); q.model(); auto h=history(q,2,3,free); std::string n="e"; Plato::Parabolic::PhysicsScalarFunction<Plato::Thermal<D>> f(*q.sm,q.dm,q.p,n); if(grad){ criterionDerivs<2,D>(f,q,h,w,free); return; } bool av=type[0]=='T'; double o=0; for(size_t s=1;s<h.y.size();s++){ q.u=h.y[s][0]; for(int c=0;c<q.m.NC;c++){ if(av){ o+=q.w(c)*cellMean<D>(q.m,c,q.u,1,0); continue; } Vec g=scalGrad<D>(q.m,c,q.u,1,0); double t=0; for(double a:g) t+=a*a; o+=q.w(c)*q.cond(c)*t; } } sx::eq("value",f.value(h.sol,q.z,0.5),o); sx::eq("again",f.value(h.sol,q.z,0.5),o); }
#define EN "Internal Thermal Energy"
#define AV "Temperature Average"
S1(energy_1d, crit<1>(EN,{1},true,SIMP,false,0,TS)) S1(energy_2d, crit<2>(EN,{1},true,RAMP,false,0,TS)) S1(energy_3d, crit<3>(EN,{},true,SIMP,false,0,TS)) S1(energy_dep_2d, crit<2>(EN,{},true,SIMP,true,0,TS)) S1(average_1d, crit<1>(AV,{1},true,SIMP,false,0,TS)) S1(average_2d, crit<2>(AV,{1},true,RAMP,false,0,TS)) S1(average_3d, crit<3>(AV,{},true,SIMP,false,0,TS))
S1(energy_grad_1d, crit<1>(EN,{},true,SIMP,false,1,TS)) S1(energy_grad_2d, crit<2>(EN,{},true,RAMP,true,1,TS)) S1(energy_z_2d, crit<2>(EN,{},true,SIMP,false,1,TZ)) S1(energy_shape_2d, crit<2>(EN,{1},true,SIMP,false,1,TX,2)) S1(energy_grad_3d, crit<3>(EN,{},false,SIMP,false,1,TS)) S1(average_grad_2d, crit<2>(AV,{},true,SIMP,false,1,TS)) S1(average_z_3d, crit<3>(AV,{},true,SIMP,false,1,TZ)) S1(average_shape_2d, crit<2>(AV,{2},true,SIMP,false,1,TX)) S1(average_shape_3d, crit<3>(AV,{3},true,SIMP,false,1,TX,2))
