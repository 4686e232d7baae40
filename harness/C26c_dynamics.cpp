// Structural dynamics: residual = K u + C v + M a - f with Rayleigh damping; matrices and criterion gradients = derivatives.
#include "sxell.hpp"
#include "sxtime.hpp"
#include "sxcrit.hpp"
#include "hyperbolic/HyperbolicVectorFunction.hpp"
#include "hyperbolic/HyperbolicPhysicsScalarFunction.hpp"
#include "hyperbolic/HyperbolicMechanics.hpp"
template<int D> struct Dy : Ell<Plato::Hyperbolic::Mechanics,D> { double rho[2],A[2],B[2]; std::shared_ptr<Plato::Hyperbolic::VectorFunction<Plato::Hyperbolic::Mechanics<D>>> g;
  // damp: 0 none, 1 mass, 2 stiffness, 3 both
  Dy(std::vector<int> xs,bool two,const Pen& pen,int damp):Ell<Plato::Hyperbolic::Mechanics,D>(xs,two,pen,D){ this->t="Hyperbolic"; pen.put(at(this->p,"Hyperbolic/Penalty Function")); elasticMaterials(this->p); for(int i=0;i<2;i++){ rho[i]=sx::real(sx::nm("rho",i),0.5,4); A[i]=damp&1?sx::real(sx::nm("A",i),0.5,2):0; B[i]=damp&2?sx::real(sx::nm("B",i),0.5,2):0; auto& l=at(this->p,i?"Material Models/mB/Isotropic Linear Elastic":"Material Models/mA/Isotropic Linear Elastic"); l.set("Mass Density",rho[i]); if(damp&1) l.set("RayleighA",A[i]); if(damp&2) l.set("RayleighB",B[i]); } }
  void start(){ this->model(); g=std::make_shared<Plato::Hyperbolic::VectorFunction<Plato::Hyperbolic::Mechanics<D>>>(*this->sm,this->dm,this->p,this->t); }
  void loads(){ this->traction("Natural Boundary Conditions","f",D); this->body(D-1); }
  void stress(int c,Fs& y,double S[3][3]){ int k=this->mat(c); double H[3][3],G[3][3]; dispGrad<D>(this->m,c,y[0],D,0,H); dispGrad<D>(this->m,c,y[1],D,0,G); for(int i=0;i<D;i++) for(int j=0;j<D;j++) H[i][j]+=B[k]*G[i][j]; isoStress<D>(k,H,S); } };
template<int D> void value(std::vector<int> xs,bool two,const Pen& pen,int damp,bool ld){ Dy<D> q(xs,two,pen,damp); if(ld) q.loads(); q.start(); auto y=fields(q,3); Vec o(q.m.N*D,0.0); for(int c=0;c<q.m.NC;c++){ int k=q.mat(c); double S[3][3]; q.stress(c,y,S); q.addStress(o,c,S,0); addRate<D>(q,o,c,y[2],0,D,q.rho[k]); addRate<D>(q,o,c,y[1],0,D,q.rho[k]*q.A[k]); } if(ld){ q.addTraction(o,"f",D,0,-1.0); q.addBody(o,D-1,-1.0); } residualIs<3,D>(*q.g,q,y,o); }
template<int D> void derivs(std::vector<int> xs,bool two,const Pen& pen,int damp,bool ld,WrtT w){ Dy<D> q(xs,two,pen,damp); if(ld) q.loads(); q.start(); auto y=fields(q,3); residualDerivs<3,D>(*q.g,q,y,w); }
S1(value_1d, value<1>(range(3),true,SIMP,3,true)) S1(value_2d, value<2>({1},true,RAMP,3,true)) S1(value_3d, value<3>({},true,SIMP,3,true)) S1(undamped_1d, value<1>({1},true,SIMP,0,true)) S1(undamped_2d, value<2>({1},true,SIMP,0,true)) S1(undamped_3d, value<3>({},true,RAMP,0,true)) S1(mass_damped_2d, value<2>({},true,SIMP,1,false)) S1(stiffness_damped_2d, value<2>({},true,SIMP,2,true)) S1(one_domain_2d, value<2>({0},false,SIMP,3,false))
S1(jac_1d, derivs<1>({1},true,SIMP,3,true,TS)) S1(jac_2d, derivs<2>({},true,SIMP,3,true,TS)) S1(jac_3d, derivs<3>({},true,SIMP,3,false,TS)) S1(jac_undamped_1d, derivs<1>({1},true,SIMP,0,true,TS)) S1(jac_undamped_2d, derivs<2>({},true,SIMP,0,true,TS)) S1(z_1d, derivs<1>({},true,SIMP,3,true,TZ)) S1(z_2d, derivs<2>({},true,RAMP,0,true,TZ)) S1(shape_1d, derivs<1>(range(3),true,SIMP,3,false,TX)) S1(shape_2d, derivs<2>({1},true,SIMP,0,false,TX)) S1(shape_damped_2d, derivs<2>({1},true,SIMP,3,false,TX))
// criteria: sums over the time steps after the initial one
template<int D> void crit(bool pn,std::vector<int> xs,bool two,const Pen& pen,int grad,WrtT w,int steps=3,int free=99){ Dy<D> q(xs,two,pen,3); criterion(q.p,"e","Scalar Function",pn?"Stress P-Norm":"Internal Elastic Energy",&q.pen); if(pn) at(q.p,"Criteria/e").set("Exponent",2.0); q.model(); auto h=history(q,3,steps,free); std::string n="e"; Plato::Hyperbolic::PhysicsScalarFunction<Plato::Hyperbolic::Mechanics<D>> f(*q.sm,q.dm,q.p,n); if(grad){ criterionDerivs<3,D>(f,q,h,w,free); return; }
  double o=0; for(size_t s=1;s<h.y.size();s++) for(int c=0;c<q.m.NC;c++){ double S[3][3],H[3][3],e=0; dispGrad<D>(q.m,c,h.y[s][0],D,0,H); isoStress<D>(q.mat(c),H,S); double a=q.pen(cellMean<D>(q.m,c,q.z,1,0)); for(int i=0;i<D;i++) for(int j=0;j<D;j++) e+=pn?(j>=i?a*a*S[i][j]*S[i][j]:0):a*S[i][j]*H[i][j]; o+=q.m.vol(c)*e; } double v=f.value(h.sol,q.z,0.5); if(pn){ sx::eq("square",v*v,o); sx::ok("nonnegative",v>=0); } else sx::eq("value",v,o); }
S1(energy_1d, crit<1>(false,{1},true,SIMP,0,TS)) S1(energy_2d, crit<2>(false,{},true,RAMP,0,TS)) S1(energy_3d, crit<3>(false,{},true,SIMP,0,TS)) S1(energy_grad_1d, crit<1>(false,{},true,SIMP,1,TS)) S1(energy_grad_2d, crit<2>(false,{},true,SIMP,1,TS)) S1(energy_z_2d, crit<2>(false,{},true,SIMP,1,TZ,3,2)) S1(energy_shape_1d, crit<1>(false,{0,1},true,SIMP,1,TX)) S1(energy_shape_2d, crit<2>(false,{1},true,SIMP,1,TX,2,1))
S1(pnorm_1d, crit<1>(true,{},true,SIMP,0,TS)) S1(pnorm_2d, crit<2>(true,{},true,RAMP,0,TS)) S1(pnorm_grad_1d, crit<1>(true,{},true,SIMP,1,TS,2)) S1(pnorm_grad_2d, crit<2>(true,{},true,SIMP,1,TS,2,2)) S1(pnorm_z_1d, crit<1>(true,{},true,SIMP,1,TZ,2)) S1(pnorm_shape_1d, crit<1>(true,{0},true,SIMP,1,TX,2))
// plotted fields
template<int D> void plot(int damp){ Dy<D> q({},true,SIMP,damp); As w(3); w[0]="strain"; w[1]="stress"; w[2]="velgrad"; at(q.p,"Hyperbolic").set("Plottable",w); q.start(); auto y=fields(q,3); q.g->value(y[0],y[1],y[2],q.z,0.5); auto& mv=q.dm.scalarMultiVectors; bool has=mv.count("strain")==1&&mv.count("stress")==1&&(!damp||mv.count("velgrad")==1); sx::ok("present",has); if(!has) return; auto e=mv["strain"]; auto s=mv["stress"]; Plato::ScalarMultiVector g; if(damp) g=mv["velgrad"]; sx::ieq("cells",e.extent(0),q.m.NC); sx::ieq("stress_cells",s.extent(0),q.m.NC); if((int)e.extent(0)!=q.m.NC||(int)s.extent(0)!=q.m.NC||(damp&&(int)g.extent(0)!=q.m.NC)) return;
  for(int c=0;c<q.m.NC;c++){ double S[3][3],H[3][3],G[3][3]; q.stress(c,y,S); dispGrad<D>(q.m,c,y[0],D,0,H); dispGrad<D>(q.m,c,y[1],D,0,G); double a=q.pen(cellMean<D>(q.m,c,q.z,1,0)); for(int i=0;i<D;i++){ sx::eq(sx::nm("e",c,i),e(c,i),H[i][i]); sx::eq(sx::nm("s",c,i),s(c,i),a*S[i][i]); if(damp) sx::eq(sx::nm("g",c,i),g(c,i),G[i][i]); } } }
S1(plot_1d, plot<1>(0)) S1(plot_2d, plot<2>(0)) S1(plot_damped_2d, plot<2>(3)) S1(plot_damped_3d, plot<3>(3))
