// Stabilized mechanics: residual = displacement-pressure weak form with pressure-gradient stabilization; matrices = derivatives; energy criterion.
#include "sxvms.hpp"
#include "sxcrit.hpp"
#include "StabilizedMechanics.hpp"
template<int D> struct Sm : Ell<Plato::StabilizedMechanics,D> { double ps; Plato::ScalarVector n; std::shared_ptr<Plato::VectorFunctionVMS<Plato::StabilizedMechanics<D>>> g;
  Sm(std::vector<int> xs,bool two,const Pen& pen):Ell<Plato::StabilizedMechanics,D>(xs,two,pen,D+1){ elasticMaterials(this->p); ps=sx::real("ps",0.5,2); for(int k=0;k<2;k++) at(this->p,k?"Material Models/mB/Isotropic Linear Elastic":"Material Models/mA/Isotropic Linear Elastic").set("Pressure Scaling",ps); n=vec("n",this->m.N*D,-1,1); }
  void start(){ this->model(); g=std::make_shared<Plato::VectorFunctionVMS<Plato::StabilizedMechanics<D>>>(*this->sm,this->dm,this->p,this->t); }
  void loads(){ this->traction("Mechanical Natural Boundary Conditions","f",D); this->body(D-1); }
  double bulk(int k){ return D==3?lame(k)+2*shear(k)/3:lame(k)+shear(k); }
  double press(int c){ return ps*cellMean<D>(this->m,c,this->u,D+1,D); }
  void total(int c,double S[3][3]){ double H[3][3],t=0; dispGrad<D>(this->m,c,this->u,D+1,0,H); isoStress<D>(this->mat(c),H,S); for(int i=0;i<D;i++) t+=S[i][i]; for(int i=0;i<D;i++) S[i][i]+=press(c)-t/3; }
  double div(int c){ double H[3][3],t=0; dispGrad<D>(this->m,c,this->u,D+1,0,H); for(int i=0;i<D;i++) t+=H[i][i]; return t; }
  Vec weak(){ auto& m=this->m; Vec o(m.N*(D+1),0.0); for(int c=0;c<m.NC;c++){ int k=this->mat(c); double S[3][3]; total(c,S); this->addStress(o,c,S,0); double v=ps*(div(c)-press(c)/bulk(k))*this->w(c)/(D+1); for(int a=0;a<=D;a++) o[m.v(c,a)*(D+1)+D]+=v;
      Vec gp=scalGrad<D>(m,c,this->u,D+1,D),s(D); double tau=pow(m.vol(c),2.0/3.0)/(2*shear(k)); for(int i=0;i<D;i++) s[i]=-ps*tau*(ps*gp[i]-cellMean<D>(m,c,n,D,i)); this->addFlux(o,c,s,D); } return o; } };
template<int D> void value(std::vector<int> xs,bool two,const Pen& pen,bool ld){ Sm<D> q(xs,two,pen); if(ld) q.loads(); q.start(); auto o=q.weak(); if(ld){ q.addTraction(o,"f",D,0,-1.0); q.addBody(o,D-1,-1.0); } auto r=q.g->value(q.u,q.n,q.z); sx::ieq("size",r.size(),q.m.N*(D+1)); for(int i=0;i<q.m.N*(D+1);i++) sx::eq(sx::nm("r",i),r(i),o[i]); }
template<int D> void derivs(std::vector<int> xs,bool two,const Pen& pen,bool ld,WrtV w){ Sm<D> q(xs,two,pen); if(ld) q.loads(); q.start(); vmsDerivs<D>(*q.g,q,q.u,q.n,D+1,D,w); }
S1(value_2d, value<2>({1},true,RAMP,true)) S1(value_3d, value<3>({3},true,SIMP,true)) S1(value_3d_moved, value<3>({3},false,NOPEN,false)) S1(value_one_domain_2d, value<2>({0,1},false,SIMP,false)) S1(value_no_penalty_2d, value<2>({},true,NOPEN,true))
S1(jac_2d, derivs<2>({1},true,SIMP,true,VU)) S1(jac_3d, derivs<3>({},true,SIMP,true,VU)) S1(jac_n_2d, derivs<2>({1},true,SIMP,true,VN)) S1(jac_n_3d, derivs<3>({},true,SIMP,false,VN)) S1(jac_z_2d, derivs<2>({},true,RAMP,true,VZ)) S1(jac_x_2d, derivs<2>({1},true,SIMP,false,VX)) S1(cells_2d, derivs<2>({1},true,SIMP,false,VW))
// when the pressure is the bulk modulus times the dilatation everywhere in a cell, the momentum balance is that of plain elasticity
template<int D> void consistent(){ Sm<D> q({},false,NOPEN); q.start(); auto& m=q.m; double H[3][3]; for(int i=0;i<D;i++) for(int j=0;j<D;j++) H[i][j]=sx::real(sx::nm("H",i,j),-1,1); double tr=0; for(int i=0;i<D;i++) tr+=H[i][i]; for(int a=0;a<m.N;a++){ for(int i=0;i<D;i++){ double s=0; for(int j=0;j<D;j++) s+=H[i][j]*m.x[a][j]; q.u(a*(D+1)+i)=s; } q.u(a*(D+1)+D)=q.bulk(0)*tr/q.ps; for(int i=0;i<D;i++) q.n(a*D+i)=0; }
  double S[3][3]; isoStress<D>(0,H,S); Vec o(m.N*(D+1),0.0); for(int c=0;c<m.NC;c++) q.addStress(o,c,S,0); auto r=q.g->value(q.u,q.n,q.z); for(int i=0;i<m.N*(D+1);i++) sx::eq(sx::nm("elastic",i),r(i),o[i]); }
S1(consistent_2d, consistent<2>()) S1(consistent_3d, consistent<3>())
// energy criterion: stress power of the total stress
template<int D> void energy(std::vector<int> xs,bool two,const Pen& pen,int grad,Wrt w,int free=99){ Sm<D> q(xs,two,pen); criterion(q.p,"e","Scalar Function","Internal Elastic Energy",&q.pen); auto k=make<Plato::StabilizedMechanics<D>>(q,"e",1,free); if(grad){ gradients<D>(q,k,w); return; } double o=0; for(int c=0;c<q.m.NC;c++){ double S[3][3],H[3][3],e=0; q.total(c,S); dispGrad<D>(q.m,c,q.u,D+1,0,H); for(int i=0;i<D;i++) for(int j=0;j<D;j++) e+=S[i][j]*H[i][j]; o+=q.w(c)*e; } sx::eq("value",k.f->value(k.sol,q.z),o); }
S1(energy_2d, energy<2>({1},true,RAMP,0,UU)) S1(energy_3d, energy<3>({},true,SIMP,0,UU)) S1(energy_simp_2d, energy<2>({},true,SIMP,0,UU)) S1(energy_grad_2d, energy<2>({},true,SIMP,1,UU)) S1(energy_z_2d, energy<2>({},true,RAMP,1,ZZ,2)) S1(energy_x_2d, energy<2>({1},true,SIMP,1,XX,2))
// plotted fields
template<int D> void plot(){ Sm<D> q({},true,SIMP); As w(2); w[0]="pressure"; w[1]="deviatoric stress"; at(q.p,"Elliptic").set("Plottable",w); q.start(); q.g->value(q.u,q.n,q.z); bool has=q.dm.scalarVectors.count("pressure")==1&&q.dm.scalarMultiVectors.count("deviatoric stress")==1; sx::ok("present",has); if(!has) return; auto p=q.dm.scalarVectors["pressure"]; auto s=q.dm.scalarMultiVectors["deviatoric stress"]; sx::ieq("cells",p.extent(0),q.m.NC); sx::ieq("stress_cells",s.extent(0),q.m.NC); if((int)p.extent(0)!=q.m.NC||(int)s.extent(0)!=q.m.NC) return; for(int c=0;c<q.m.NC;c++){ double S[3][3],a=q.pen(cellMean<D>(q.m,c,q.z,1,0)); q.total(c,S); sx::eq(sx::nm("p",c),p(c),a*q.press(c)); for(int i=0;i<D;i++) sx::eq(sx::nm("s",c,i),s(c,i),a*(S[i][i]-q.press(c))); } }
S1(plot_2d, plot<2>()) S1(plot_3d, plot<3>())
