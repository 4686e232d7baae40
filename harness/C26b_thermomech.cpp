// Transient thermomechanics: residual = quasi-static equilibrium and heat balance with capacity; matrices and criterion gradients = derivatives.
#include "sxtm.hpp"
#include "sxtime.hpp"
#include "sxcrit.hpp"
#include "parabolic/VectorFunction.hpp"
#include "parabolic/PhysicsScalarFunction.hpp"
template<int D> struct Tt : Tm<D> { double rc[2]; std::shared_ptr<Plato::Parabolic::VectorFunction<Plato::Thermomechanics<D>>> g;
  Tt(std::vector<int> xs,bool two,const Pen& pen,bool dep):Tm<D>(xs,two,pen,dep){ this->t="Parabolic"; pen.put(at(this->p,"Parabolic/Penalty Function")); this->ts=1; for(int i=0;i<2;i++){ at(this->p,i?"Material Models/mB/Thermoelastic":"Material Models/mA/Thermoelastic").set("Temperature Scaling",1.0); double r=sx::real(sx::nm("rho",i),0.5,4),c=sx::real(sx::nm("cp",i),0.5,4); rc[i]=r*c; at(this->p,i?"Material Models/mB/Thermal Mass":"Material Models/mA/Thermal Mass").set("Mass Density",r).set("Specific Heat",c); } }
  void start(){ this->model(); g=std::make_shared<Plato::Parabolic::VectorFunction<Plato::Thermomechanics<D>>>(*this->sm,this->dm,this->p,this->t); }
  void loads(){ this->traction("Mechanical Natural Boundary Conditions","f",D); this->flux("Thermal Natural Boundary Conditions","h"); } };
template<int D> void value(std::vector<int> xs,bool two,const Pen& pen,bool dep,bool ld){ Tt<D> q(xs,two,pen,dep); if(ld) q.loads(); q.start(); auto y=fields(q,2); auto o=q.weak(); for(int c=0;c<q.m.NC;c++) addRate<D>(q,o,c,y[1],D,1,q.rc[q.mat(c)]); if(ld){ q.addTraction(o,"f",D,0,-1.0); q.addTraction(o,"h",1,D,-1.0); } residualIs<2,D>(*q.g,q,y,o); }
template<int D> void derivs(std::vector<int> xs,bool two,const Pen& pen,bool dep,bool ld,WrtT w){ Tt<D> q(xs,two,pen,dep); if(ld) q.loads(); q.start(); auto y=fields(q,2); residualDerivs<2,D>(*q.g,q,y,w); }
S1(transient_1d, value<1>(range(3),true,SIMP,false,true)) S1(transient_2d, value<2>({1,2},true,RAMP,false,true)) S1(transient_3d, value<3>({3},true,SIMP,false,true)) S1(transient_dep_2d, value<2>({},true,SIMP,true,true))
S1(transient_jac_1d, derivs<1>({1},true,SIMP,false,true,TS)) S1(transient_jac_2d, derivs<2>({1},true,SIMP,false,true,TS)) S1(transient_jac_3d, derivs<3>({},true,SIMP,false,true,TS)) S1(transient_z_2d, derivs<2>({},true,RAMP,false,true,TZ)) S1(transient_shape_1d, derivs<1>(range(3),true,SIMP,false,true,TX)) S1(transient_shape_2d, derivs<2>({1},true,SIMP,false,true,TX))
template<int D> void crit(std::vector<int> xs,bool two,const Pen& pen,bool dep,int grad,WrtT w,int free=99){ Tt<D> q(xs,two,pen,dep); criterion(q.p,"e","Scalar Function","Internal Thermoelastic Energy",&q.pen); q.model(); auto h=history(q,2,3,free); std::string n="e"; Plato::Parabolic::PhysicsScalarFunction<Plato::Thermomechanics<D>> f(*q.sm,q.dm,q.p,n); if(grad){ criterionDerivs<2,D>(f,q,h,w,free); return; } double o=0; for(size_t s=1;s<h.y.size();s++){ q.u=h.y[s][0]; for(int c=0;c<q.m.NC;c++){ double S[3][3],H[3][3],t=0; Vec k; q.law(c,S,k); dispGrad<D>(q.m,c,q.u,D+1,0,H); Vec g=scalGrad<D>(q.m,c,q.u,D+1,D); for(int i=0;i<D;i++){ t+=k[i]*g[i]; for(int j=0;j<D;j++) t+=S[i][j]*H[i][j]; } o+=q.w(c)*t; } } sx::eq("value",f.value(h.sol,q.z,0.5),o); }
S1(energy_1d, crit<1>({1},true,SIMP,false,0,TS)) S1(energy_2d, crit<2>({},true,RAMP,false,0,TS)) S1(energy_3d, crit<3>({},true,SIMP,false,0,TS)) S1(energy_grad_1d, crit<1>({},true,SIMP,false,1,TS)) S1(energy_grad_2d, crit<2>({},true,SIMP,false,1,TS)) S1(energy_z_2d, crit<2>({},true,SIMP,false,1,TZ,2)) S1(energy_shape_1d, crit<1>({0,1},true,SIMP,false,1,TX)) S1(energy_shape_2d, crit<2>({1},true,SIMP,false,1,TX,1))
template<int D> void plot(){ Tt<D> q({},true,SIMP,false); As w(2); w[0]="strain"; w[1]="stress"; at(q.p,"Parabolic").set("Plottable",w); q.start(); auto y=fields(q,2); q.g->value(y[0],y[1],q.z,0.5); auto& mv=q.dm.scalarMultiVectors; bool has=mv.count("strain")==1&&mv.count("stress")==1; sx::ok("present",has); if(!has) return; auto e=mv["strain"]; auto s=mv["stress"]; sx::ieq("cells",e.extent(0),q.m.NC); sx::ieq("stress_cells",s.extent(0),q.m.NC); if((int)e.extent(0)!=q.m.NC||(int)s.extent(0)!=q.m.NC) return;
  for(int c=0;c<q.m.NC;c++){ double S[3][3],H[3][3]; Vec k; q.law(c,S,k); dispGrad<D>(q.m,c,q.u,D+1,0,H); double a=q.pen(cellMean<D>(q.m,c,q.z,1,0)); for(int i=0;i<D;i++){ sx::eq(sx::nm("e",c,i),e(c,i),H[i][i]); sx::eq(sx::nm("s",c,i),s(c,i),a*S[i][i]); } } }
S1(plot_1d, plot<1>()) S1(plot_2d, plot<2>()) S1(plot_3d, plot<3>())
