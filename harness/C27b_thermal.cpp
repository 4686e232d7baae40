// Stabilized thermomechanics and the projection of the pressure gradient.
#include "sxtm.hpp"
#include "sxvms.hpp"
#include "StabilizedThermomechanics.hpp"
#include "StabilizedMechanics.hpp"
template<int D> struct St : Ell<Plato::StabilizedThermomechanics,D> { typedef Ell<Plato::StabilizedThermomechanics,D> B; double ps,k,al,T0,ts; Plato::ScalarVector n; std::shared_ptr<Plato::VectorFunctionVMS<Plato::StabilizedThermomechanics<D>>> g;
  St(std::vector<int> xs,bool two,const Pen& pen):B(xs,two,pen,D+2){ ps=sx::real("ps",0.5,2); k=sx::real("k",0.5,4); al=sx::real("al",0.25,2); T0=sx::real("T0",-2,2); ts=sx::real("ts",0.5,2); for(int i=0;i<2;i++){ auto& q=at(this->p,i?"Material Models/mB/Isotropic Linear Thermoelastic":"Material Models/mA/Isotropic Linear Thermoelastic"); q.set("Thermal Expansion Coefficient",al*(i+1)).set("Thermal Conductivity Coefficient",k*(i+1)).set("Poissons Ratio",nu[i]).set("Youngs Modulus",Em[i]).set("Reference Temperature",T0).set("Temperature Scaling",ts).set("Pressure Scaling",ps); } n=vec("n",this->m.N*D,-1,1); }
  void start(){ this->model(); g=std::make_shared<Plato::VectorFunctionVMS<Plato::StabilizedThermomechanics<D>>>(*this->sm,this->dm,this->p,this->t); }
  void loads(){ this->traction("Mechanical Natural Boundary Conditions","f",D); this->flux("Thermal Natural Boundary Conditions","h"); }
  Vec weak(){ auto& m=this->m; Vec o(m.N*(D+2),0.0); for(int c=0;c<m.NC;c++){ int i=this->mat(c); double S[3][3],H[3][3],t=0,dv=0; dispGrad<D>(m,c,this->u,D+2,0,H); double th=ts*al*(i+1)*(cellMean<D>(m,c,this->u,D+2,D+1)-T0),p=ps*cellMean<D>(m,c,this->u,D+2,D); for(int d=0;d<D;d++){ H[d][d]-=th; dv+=H[d][d]; } isoStress<D>(i,H,S); for(int d=0;d<D;d++) t+=S[d][d]; for(int d=0;d<D;d++) S[d][d]+=p-t/3; this->addStress(o,c,S,0);
      double K=D==3?lame(i)+2*shear(i)/3:lame(i)+shear(i), v=ps*(dv-p/K)*this->w(c)/(D+1); for(int a=0;a<=D;a++) o[m.v(c,a)*(D+2)+D]+=v; Vec gp=scalGrad<D>(m,c,this->u,D+2,D),s(D),q=scalGrad<D>(m,c,this->u,D+2,D+1); double tau=pow(m.vol(c),2.0/3.0)/(2*shear(i)); for(int d=0;d<D;d++){ s[d]=-ps*tau*(ps*gp[d]-cellMean<D>(m,c,n,D,d)); q[d]*=ts*ts*k*(i+1); } this->addFlux(o,c,s,D); this->addFlux(o,c,q,D+1); } return o; } };
template<int D> void value(std::vector<int> xs,bool two,const Pen& pen,bool ld){ St<D> q(xs,two,pen); if(ld) q.loads(); q.start(); auto o=q.weak(); if(ld){ q.addTraction(o,"f",D,0,-1.0); q.addTraction(o,"h",1,D+1,-1.0); } auto r=q.g->value(q.u,q.n,q.z); sx::ieq("size",r.size(),q.m.N*(D+2)); for(int i=0;i<q.m.N*(D+2);i++) sx::eq(sx::nm("r",i),r(i),o[i]); }
template<int D> void derivs(std::vector<int> xs,bool two,const Pen& pen,bool ld,WrtV w){ St<D> q(xs,two,pen); if(ld) q.loads(); q.start(); vmsDerivs<D>(*q.g,q,q.u,q.n,D+2,D,w); }
S1(thermal_2d, value<2>({1},true,RAMP,true)) S1(thermal_3d, value<3>({3},true,SIMP,true)) S1(thermal_one_domain_2d, value<2>({0,1},false,SIMP,false))
S1(thermal_jac_2d, derivs<2>({},true,SIMP,true,VU)) S1(thermal_jac_3d, derivs<3>({},true,SIMP,false,VU)) S1(thermal_n_2d, derivs<2>({},true,SIMP,false,VN)) S1(thermal_z_2d, derivs<2>({},true,RAMP,true,VZ)) S1(thermal_x_2d, derivs<2>({1},false,SIMP,false,VX))
// projection: sum over cells of weight * (projected gradient - pressure gradient) at the centroid
template<int D> struct Pj : Ell<Plato::StabilizedMechanics,D> { typedef typename Plato::StabilizedMechanics<D>::ProjectorT P; double ps; Plato::ScalarVector g,pr; std::shared_ptr<Plato::VectorFunctionVMS<P>> f;
  Pj(std::vector<int> xs,bool two,const Pen& pen,bool scaled):Ell<Plato::StabilizedMechanics,D>(xs,two,pen,D){ ps=scaled?sx::real("ps",0.5,2):1.0; if(scaled) at(this->p,"Material Models").set("Pressure Scaling",ps); at(this->p,"Material Models/mA"); at(this->p,"Material Models/mB"); pen.put(at(this->p,"State Gradient Projection/Penalty Function")); this->model(); g=vec("g",this->m.N*D,-1,1); pr=vec("p",this->m.N,-1,1); std::string t="State Gradient Projection"; f=std::make_shared<Plato::VectorFunctionVMS<P>>(*this->sm,this->dm,this->p,t); } };
template<int D> void projection(std::vector<int> xs,bool two,const Pen& pen,bool scaled){ Pj<D> q(xs,two,pen,scaled); auto& m=q.m; Vec o(m.N*D,0.0); for(int c=0;c<m.NC;c++){ Vec gp=scalGrad<D>(m,c,q.pr,1,0); for(int i=0;i<D;i++){ double v=q.w(c)*(cellMean<D>(m,c,q.g,D,i)-q.ps*gp[i])/(D+1); for(int a=0;a<=D;a++) o[m.v(c,a)*D+i]+=v; } } auto r=q.f->value(q.g,q.pr,q.z); sx::ieq("size",r.size(),m.N*D); for(int i=0;i<m.N*D;i++) sx::eq(sx::nm("r",i),r(i),o[i]); }
template<int D> void projDerivs(std::vector<int> xs,bool two,const Pen& pen,WrtV w){ Pj<D> q(xs,two,pen,true); vmsDerivs<D>(*q.f,q,q.g,q.pr,D,1,w); }
S1(projection_1d, projection<1>({0,1},true,SIMP,true)) S1(projection_2d, projection<2>({1},true,RAMP,true)) S1(projection_3d, projection<3>({3},true,SIMP,true)) S1(projection_plain_2d, projection<2>({},false,NOPEN,false))
S1(projection_jac_1d, projDerivs<1>({},true,SIMP,VU)) S1(projection_jac_2d, projDerivs<2>({},true,SIMP,VU)) S1(projection_jac_3d, projDerivs<3>({},true,RAMP,VU)) S1(projection_n_2d, projDerivs<2>({},true,SIMP,VN)) S1(projection_n_3d, projDerivs<3>({},true,SIMP,VN)) S1(projection_z_2d, projDerivs<2>({},true,SIMP,VZ)) S1(projection_x_2d, projDerivs<2>({1},true,SIMP,VX)) S1(projection_cells_2d, projDerivs<2>({1},true,SIMP,VW)) S1(projection_cells_1d, projDerivs<1>({0},true,SIMP,VW))
