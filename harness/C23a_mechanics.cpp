// Elastostatics: the residual is the weak form and its matrices are its derivatives.
#include "sxmat.hpp"
#include "Mechanics.hpp"
#include "elliptic/VectorFunction.hpp"
#define S1(n,...) static void n(){ __VA_ARGS__; } SX_TSCENARIO(n,n)
typedef Teuchos::Array<double> Ad;
// internal force of the isotropic solid: sum over cells of volume * penalty(mean density) * stress : grad N
template<int D> Vec internal(Msh<D>& m,const Plato::ScalarVector& u,const Plato::ScalarVector& z,bool two,const Pen& pen,int col){ Vec r(m.N*D,0.0);
  for(int c=0;c<m.NC;c++){ int k=two&&c==0; double H[3][3],S[3][3]; dispGrad<D>(m,c,u,D,0,H); isoStress<D>(k,H,S);
    if(col>=0){ for(int i=0;i<D;i++) for(int j=0;j<D;j++){ if(col<D) S[i][j]-=(i==j?lame(k):0)+(i==j&&i==col?2*shear(k):0); else { int a=D==2||col==5?0:col==4?0:1,b=D==2||col==5?1:2; if((i==a&&j==b)||(i==b&&j==a)) S[i][j]-=shear(k); } } }
    for(int n=0;n<=D;n++) for(int i=0;i<D;i++){ double s=0; for(int j=0;j<D;j++) s+=S[i][j]*m.grad(c,n)[j]; r[m.v(c,n)*D+i]+=s*m.vol(c)*pen(cellMean<D>(m,c,z,1,0)); } }
  return r; }
template<int D> struct Prob { Msh<D> m; Teuchos::ParameterList p; Plato::DataMap dm; std::string t; std::shared_ptr<Plato::SpatialModel> sm; std::shared_ptr<Plato::Elliptic::VectorFunction<Plato::Mechanics<D>>> f; Plato::ScalarVector u,z;
  Prob(std::vector<int> xs,bool two,const Pen& pen):m(xs),t("Elliptic"){ domains(p,two); elasticMaterials(p); pen.put(at(p,"Elliptic/Penalty Function")); }
  void go(){ sm=std::make_shared<Plato::SpatialModel>(m.mesh,m.sets,p); f=std::make_shared<Plato::Elliptic::VectorFunction<Plato::Mechanics<D>>>(*sm,dm,p,t); u=vec("u",m.N*D,-1,1); z=vec("z",m.N,0.1,1); } };
static std::vector<std::pair<int,int>> loaded(int D){ if(D==1) return {{1,1}}; if(D==2) return {{1,1},{0,2}}; return {{1,0},{0,2}}; }
template<int D> void loads(Prob<D>& q,bool body){ q.m.sideset("s",loaded(D)); Ad v(D); for(int i=0;i<D;i++) v[i]=sx::real(sx::nm("t",i),-3,3); at(q.p,"Natural Boundary Conditions/a").set("Type","Uniform").set("Sides","s").set("Values",v); if(body) at(q.p,"Body Loads/b").set("Index",D-1).set("Function","2.0*x+1.0"); }
template<int D> void value(std::vector<int> xs,bool two,const Pen& pen,bool withLoads,int col=-1){ Prob<D> q(xs,two,pen); if(withLoads) loads<D>(q,true); if(col>=0) at(q.p,"Cell Problem Forcing").set("Column Index",col); q.go(); auto& m=q.m; auto r=q.f->value(q.u,q.z); auto o=internal<D>(m,q.u,q.z,two,pen,col); if(withLoads){ for(auto& s:loaded(D)) for(int n=0;n<=D;n++) if(n!=s.second) for(int i=0;i<D;i++) o[m.v(s.first,n)*D+i]-=sx::real(sx::nm("t",i),-3,3)*m.area(s.first,s.second)/D; for(int c=0;c<m.NC;c++) for(int n=0;n<=D;n++) o[m.v(c,n)*D+D-1]-=(2*m.centroid(c)[0]+1)*cellMean<D>(m,c,q.z,1,0)*m.vol(c)/(D+1); } sx::ieq("size",r.size(),q.m.N*D); for(int i=0;i<q.m.N*D;i++) sx::eq(sx::nm("r",i),r(i),o[i]); }
template<int D> void derivs(std::vector<int> xs,bool two,const Pen& pen,bool withLoads,Wrt w,bool body=true){ Prob<D> q(xs,two,pen); if(withLoads) loads<D>(q,body); q.go(); derivatives<D>(*q.f,q.m,q.u,q.z,D,xs,w); }
static const Wrt UZ{true,true,true,false}, X{false,false,false,true};
S1(value_1d, value<1>(range(3),true,SIMP,true)) S1(value_2d, value<2>(range(4),true,SIMP,false)) S1(value_one_domain_2d, value<2>(range(4),false,RAMP,false)) S1(value_loads_2d, value<2>(range(4),true,RAMP,true)) S1(value_nopenalty_2d, value<2>(range(4),true,NOPEN,true))
S1(value_3d, value<3>({3},true,SIMP,false)) S1(value_loads_3d, value<3>({1},true,SIMP,true)) S1(value_one_domain_3d, value<3>({0},false,RAMP,true))
S1(cell_problem_2d, for(int k=0;k<3;k++) value<2>({1},true,SIMP,false,k)) S1(cell_problem_3d, for(int k=0;k<6;k++) value<3>({4},true,SIMP,false,k))
S1(jacobians_1d, derivs<1>(range(3),true,SIMP,true,UZ)) S1(jacobians_2d, derivs<2>(range(4),true,SIMP,true,UZ)) S1(jacobians_ramp_2d, derivs<2>({2},false,RAMP,true,UZ)) S1(jacobians_3d, derivs<3>({1},true,SIMP,true,UZ)) S1(jacobians_ramp_3d, derivs<3>({4},false,RAMP,false,UZ))
S1(shape_1d, derivs<1>(range(3),true,SIMP,true,X,false)) S1(shape0_2d, derivs<2>({0},true,SIMP,true,X,false)) S1(shape1_2d, derivs<2>({1},true,SIMP,true,X,false)) S1(shape2_2d, derivs<2>({2},false,SIMP,true,X,false)) S1(shape3_2d, derivs<2>({3},true,RAMP,true,X,false))
S1(shape0_3d, derivs<3>({0},true,SIMP,false,X)) S1(shape1_3d, derivs<3>({1},true,SIMP,false,X)) S1(shape2_3d, derivs<3>({2},false,SIMP,false,X)) S1(shape3_3d, derivs<3>({3},true,SIMP,false,X)) S1(shape4_3d, derivs<3>({4},true,SIMP,true,X,false))
// loads whose integral depends on the node coordinates through more than the side measure
S1(shape_body_load_2d, derivs<2>({1},true,SIMP,true,X,true))
static void shapePressure(){ Prob<2> q({1},true,SIMP); q.m.sideset("s",loaded(2)); at(q.p,"Natural Boundary Conditions/a").set("Type","Uniform Pressure").set("Sides","s").set("Value",sx::real("p",-3,3)); q.go(); derivatives<2>(*q.f,q.m,q.u,q.z,2,{1},X); }
SX_TSCENARIO(shape_pressure_2d,shapePressure)
// requested output fields hold every cell's value, whichever domain the cell is in
template<int D> void plot(){ const int V=D==3?6:3; Prob<D> q({},true,SIMP); Teuchos::Array<std::string> w(2); w[0]="strain"; w[1]="stress"; at(q.p,"Elliptic").set("Plottable",w); q.go(); q.f->value(q.u,q.z); auto& m=q.m; auto& mv=q.dm.scalarMultiVectors; sx::ok("present",mv.count("strain")==1&&mv.count("stress")==1); if(!(mv.count("strain")&&mv.count("stress"))) return; auto e=mv["strain"]; auto s=mv["stress"]; sx::ieq("cells",e.extent(0),m.NC); sx::ieq("terms",e.extent(1),V);
  for(int c=0;c<m.NC;c++){ double H[3][3],S[3][3]; dispGrad<D>(m,c,q.u,D,0,H); isoStress<D>(c==0,H,S); for(int k=0;k<V;k++){ int i=k<D?k:D==2?0:k==3?1:0,j=k<D?k:D==2?1:k==5?1:2; sx::eq(sx::nm("strain",c,k),e(c,k),i==j?H[i][i]:H[i][j]+H[j][i]); sx::eq(sx::nm("stress",c,k),s(c,k),S[i][j]*SIMP(cellMean<D>(m,c,q.z,1,0))); } } }
S1(plot_2d, plot<2>()) S1(plot_3d, plot<3>())
