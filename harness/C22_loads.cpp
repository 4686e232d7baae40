// Loads and prescribed values: what a boundary-condition or body-load block asks for is what reaches the residual.
#include "sxmesh.hpp"
#include "SimplexMechanics.hpp"
#include "SimplexThermomechanics.hpp"
#include "SimplexThermal.hpp"
#include "Simp.hpp"
#include "NaturalBCs.hpp"
#include "BodyLoads.hpp"
#include "CellForcing.hpp"
#include "EssentialBCs.hpp"
#include "elliptic/EllipticSimplexFadTypes.hpp"
#include "SimplexFadTypes.hpp"
typedef Teuchos::ParameterList PL; typedef Teuchos::Array<double> Ad;
template<int D> Plato::ScalarArray3D config(Msh<D>& m){ Plato::ScalarArray3D c("cfg",m.NC,D+1,D); for(int e=0;e<m.NC;e++) for(int n=0;n<=D;n++) for(int d=0;d<D;d++) c(e,n,d)=m.P(e,n)[d]; return c; }
// sides loaded: for every dimension two sides of cell 0 or 1 on the outside of the mesh, as (cell, opposite local node)
template<int D> std::vector<std::pair<int,int>> outer(int which){ if(D==1) return which? std::vector<std::pair<int,int>>{{1,1}}:std::vector<std::pair<int,int>>{{0,1}}; if(D==2) return which? std::vector<std::pair<int,int>>{{1,1},{0,2}}:std::vector<std::pair<int,int>>{{0,1},{1,0}}; return which? std::vector<std::pair<int,int>>{{1,0},{0,2}}:std::vector<std::pair<int,int>>{{0,1},{0,3},{1,2}}; }
template<int D> bool on(Msh<D>&,std::vector<std::pair<int,int>> s,int c,int n,double&){ return false; }
// expected nodal force of a traction per unit area t on the sides s, or of a pressure p along the outward normal
template<int D> void traction(Msh<D>& m,std::vector<std::pair<int,int>> s,const Vec& t,double p,bool press,double scale,int per,int off,int nd,std::vector<Vec>& r){ for(auto& k:s){ Vec a=m.areaVec(k.first,k.second); double A=m.area(k.first,k.second); for(int n=0;n<=D;n++) if(n!=k.second) for(int i=0;i<nd;i++) r[k.first][n*per+off+i]+=scale*(press?p*a[i]:t[i]*A)/D; } }
template<int D,int ND,int PER,int OFF> struct NB { Msh<D> m; PL p; std::vector<Vec> r; double scale; int ns; Plato::ScalarMultiVector ws;
  NB(std::vector<int> xs):m(xs),r(m.NC,Vec(PER*(D+1),0.0)),ws("ws",m.NC,PER*(D+1)){ m.sideset("s0",outer<D>(0)); m.sideset("s1",outer<D>(1)); scale=sx::real("scale",-2,2); for(int c=0;c<m.NC;c++) for(size_t j=0;j<r[c].size();j++){ r[c][j]=sx::real(sx::nm("had",c,j),-1,1); ws(c,j)=r[c][j]; } }
  void run(){ at(p,"Spatial Model/Domains/Whole").set("Element Block","all").set("Material Model","m"); Plato::SpatialModel sm(m.mesh,m.sets,p); Plato::NaturalBCs<D,ND,PER,OFF> b(p.sublist("N")); Plato::ScalarMultiVector u("u",m.NC,PER*(D+1)),z("z",m.NC,D+1); auto c=config<D>(m); b.get(sm,u,z,c,ws,scale); for(int e=0;e<m.NC;e++) for(size_t j=0;j<r[e].size();j++) sx::eq(sx::nm("f",e,j),ws(e,j),r[e][j]); } };
template<int D,int ND,int PER,int OFF> void uniform(std::vector<int> xs){ NB<D,ND,PER,OFF> b(xs); Ad v(ND); Vec t(ND); for(int i=0;i<ND;i++) t[i]=v[i]=sx::real(sx::nm("t",i),-3,3); at(b.p,"N/a").set("Type","Uniform").set("Sides","s0").set("Values",v); double q=sx::real("q",-3,3); Vec t2(ND,0.0); t2[ND-1]=q; at(b.p,"N/b").set("Type","Uniform").set("Sides","s1").set("Value",q).set("Index",ND-1);
  traction<D>(b.m,outer<D>(0),t,0,false,b.scale,PER,OFF,ND,b.r); traction<D>(b.m,outer<D>(1),t2,0,false,b.scale,PER,OFF,ND,b.r); b.run(); }
template<int D,int PER,int OFF> void pressure(std::vector<int> xs){ NB<D,D,PER,OFF> b(xs); double p=sx::real("p",-3,3); at(b.p,"N/a").set("Type","Uniform Pressure").set("Sides","s0").set("Value",p); traction<D>(b.m,outer<D>(0),Vec(D),p,true,b.scale,PER,OFF,D,b.r); b.run(); }
template<int D,int PER,int OFF> void component(std::vector<int> xs){ const char* nm[2][3]={{"x","y","z"},{"X","Y","Z"}}; for(int k=0;k<D;k++){ NB<D,D,PER,OFF> b(xs); double q=sx::real("q",-3,3); at(b.p,"N/a").set("Type","Uniform Component").set("Sides","s0").set("Value",q).set("Component",nm[k%2][k]); double q2=sx::real("q2",-3,3); at(b.p,"N/b").set("Type","Uniform Component").set("Sides","s1").set("Value",q2).set("Component",nm[1-k%2][k]); Vec t(D,0.0); t[k]=q; traction<D>(b.m,outer<D>(0),t,0,false,b.scale,PER,OFF,D,b.r); t[k]=q2; traction<D>(b.m,outer<D>(1),t,0,false,b.scale,PER,OFF,D,b.r); b.run(); } }
#define S1(n,...) static void n(){ __VA_ARGS__; } SX_TSCENARIO(n,n)
S1(uniform_1d, uniform<1,1,1,0>(range(3))) S1(uniform_2d, uniform<2,2,2,0>(range(4))) S1(uniform_3d, uniform<3,3,3,0>({1})) S1(uniform_3d_b, uniform<3,3,3,0>({4}))
S1(uniform_offset_2d, uniform<2,1,3,2>(range(4))) S1(uniform_first_of_more_2d, uniform<2,2,3,0>(range(4))) S1(uniform_offset_3d, uniform<3,1,4,3>({3}))
S1(component_2d, component<2,2,0>(range(4))) S1(component_3d, component<3,4,0>({2})) S1(component_1d, component<1,1,0>(range(3)))
S1(pressure_1d, pressure<1,1,0>(range(3))) S1(pressure_2d, pressure<2,2,0>(range(4))) S1(pressure_of_more_2d, pressure<2,3,0>(range(4))) S1(pressure_3d, pressure<3,3,0>({1})) S1(pressure_3d_b, pressure<3,4,0>({0}))
// malformed blocks are refused
static bool bad(std::function<void(PL&)> f){ return sx::throws([&]{ PL p; f(p); Plato::NaturalBCs<2,2,2,0> b(p); }); }
S1(rejects_2d,
  sx::ok("no_type",bad([](PL& p){ p.sublist("a").set("Sides","s0").set("Value",1.0); })); sx::ok("unknown_type",bad([](PL& p){ p.sublist("a").set("Type","Uniforms").set("Sides","s0").set("Value",1.0); }));
  sx::ok("no_sides",bad([](PL& p){ p.sublist("a").set("Type","Uniform").set("Value",1.0); })); sx::ok("not_a_list",bad([](PL& p){ p.set("a",1.0); }));
  sx::ok("both_value_and_values",bad([](PL& p){ p.sublist("a").set("Type","Uniform").set("Sides","s0").set("Value",1.0).set("Values",Ad(2,1.0)); })); sx::ok("neither",bad([](PL& p){ p.sublist("a").set("Type","Uniform").set("Sides","s0"); }));
  sx::ok("pressure_without_value",bad([](PL& p){ p.sublist("a").set("Type","Uniform Pressure").set("Sides","s0"); })); sx::ok("component_without_value",bad([](PL& p){ p.sublist("a").set("Type","Uniform Component").set("Sides","s0").set("Component","x"); }));
  sx::ok("component_missing",bad([](PL& p){ p.sublist("a").set("Type","Uniform Component").set("Sides","s0").set("Value",1.0); })); sx::ok("component_beyond_dimension",bad([](PL& p){ p.sublist("a").set("Type","Uniform Component").set("Sides","s0").set("Value",1.0).set("Component","z"); }));
  sx::ok("good",!bad([](PL& p){ p.sublist("a").set("Type","Uniform Component").set("Sides","s0").set("Value",1.0).set("Component","y"); }));
  sx::ok("unknown_side_set",sx::throws([]{ Msh<2> m; m.sideset("s0",outer<2>(0)); PL p; at(p,"Spatial Model/Domains/W").set("Element Block","all").set("Material Model","m"); at(p,"N/a").set("Type","Uniform").set("Sides","nope").set("Values",Ad(2,1.0)); Plato::SpatialModel sm(m.mesh,m.sets,p); Plato::NaturalBCs<2,2,2,0> b(p.sublist("N")); Plato::ScalarMultiVector u("u",2,6),z("z",2,3),r("r",2,6); auto c=config<2>(m); b.get(sm,u,z,c,r,1.0); })))
// body loads: the force per unit volume of fully dense material at the cell's centre, shared equally by its nodes, scaled by the cell density
template<class Phys,int D> void body(std::vector<int> xs,bool two){ const int per=Phys::mNumDofsPerNode; typedef typename Plato::Evaluation<Phys>::Residual E; Msh<D> m(xs); PL p; domains(p,two); Plato::SpatialModel sm(m.mesh,m.sets,p);
  at(p,"B/one").set("Index",0).set("Function",D==1?"1.5+x*x":D==2?"1.5+2.0*x*y-y":"x*y+0.5*z-y"); at(p,"B/two").set("Index",per-1).set("Function","2.0*x"); Plato::BodyLoads<E,Phys> b(p.sublist("B")); double s=sx::real("s",-2,2);
  for(auto& dom:sm.Domains){ int nc=dom.numCells(); Plato::ScalarMultiVector u("u",nc,per*(D+1)),z("z",nc,D+1),r("r",nc,per*(D+1)); auto ids=dom.cellOrdinals();
    for(int c=0;c<nc;c++){ for(int n=0;n<=D;n++) z(c,n)=sx::real(sx::nm("z",ids[c],n),0,1); for(int j=0;j<per*(D+1);j++) r(c,j)=sx::real(sx::nm("had",ids[c],j),-1,1); }
    b.get(dom,u,z,r,s);
    for(int c=0;c<nc;c++){ int C=ids[c]; Vec x=m.centroid(C); double f0=D==1?1.5+x[0]*x[0]:D==2?1.5+2*x[0]*x[1]-x[1]:x[0]*x[1]+0.5*x[D-1]-x[1<D?1:0], f1=2*x[0]; double rho=0; for(int n=0;n<=D;n++) rho+=z(c,n)/(D+1);
      for(int n=0;n<=D;n++) for(int i=0;i<per;i++){ double f=(i==0?f0:0.0)+(i==per-1?f1:0.0); sx::eq(sx::nm("f",C,n,i),r(c,n*per+i),sx::real(sx::nm("had",C,n*per+i),-1,1)+s*f*rho*m.vol(C)/(D+1)); } } } }
S1(body_1d, (body<Plato::SimplexMechanics<1>,1>(range(3),false))) S1(body_2d, (body<Plato::SimplexMechanics<2>,2>(range(4),true))) S1(body_3d, (body<Plato::SimplexMechanics<3>,3>({3},true))) S1(body_thermomech_2d, (body<Plato::SimplexThermomechanics<2>,2>(range(4),false))) S1(body_thermal_3d, (body<Plato::SimplexThermal<3>,3>({0},false)))
// prescribed values: one (dof, value) pair per node of each named set, in the order of the blocks
template<class Phys> void essential(){ const int per=Phys::mNumDofsPerNode; Msh<2> m; m.nodeset("n0",{3,1}); m.nodeset("n1",{2}); m.nodeset("none",{}); PL p; double a=sx::real("a",-5,5),b=sx::real("b",-5,5);
  auto& e=p.sublist("E"); e.sublist("k1").set("Type","Fixed Value").set("Sides","n0").set("Index",per-1).set("Value",a); e.sublist("k2").set("Type","Zero Value").set("Sides","n1").set("Index",0); e.sublist("k3").set("Type","Fixed Value").set("Sides","n1").set("Index",per-1).set("Value",b); e.sublist("k4").set("Type","Fixed Value").set("Sides","n1").set("Value",b);
  Plato::LocalOrdinalVector d("d",17); Plato::ScalarVector v("v",2); Plato::EssentialBCs<Phys> x(e,m.sets); x.get(d,v); int wd[5]={3*per+per-1,per+per-1,2*per,2*per+per-1,2*per}; double wv[5]={a,a,0,b,b}; sx::ieq("count",d.size(),5); sx::ieq("values",v.size(),5); for(int i=0;i<5;i++){ sx::ieq(sx::nm("dof",i),d(i),wd[i]); sx::eq(sx::nm("val",i),v(i),wv[i]); }
  double sc=sx::real("sc",0.5,4); std::map<Plato::OrdinalType,Plato::Scalar> f; f[per-1]=sc; Plato::EssentialBCs<Phys> y(e,m.sets,f); y.get(d,v,sx::real("time",0,3)); double sv[5]={a/sc,a/sc,per==1?0.0:0.0,b/sc,per==1?b/sc:b}; for(int i=0;i<5;i++){ sx::ieq(sx::nm("sdof",i),d(i),wd[i]); sx::eq(sx::nm("sval",i),v(i),sv[i]); }
  auto no=[&](std::function<void(PL&)> g){ return sx::throws([&]{ PL q; g(q); Plato::EssentialBCs<Phys> w(q,m.sets); Plato::LocalOrdinalVector dd; Plato::ScalarVector vv; w.get(dd,vv); }); };
  sx::ok("unknown_set",no([](PL& q){ q.sublist("k").set("Type","Zero Value").set("Sides","zz"); })); sx::ok("no_value",no([](PL& q){ q.sublist("k").set("Type","Fixed Value").set("Sides","n0"); })); sx::ok("unknown_type",no([](PL& q){ q.sublist("k").set("Type","Fixed").set("Sides","n0").set("Value",1.0); })); sx::ok("not_a_list",no([](PL& q){ q.set("k",1.0); })); sx::ok("value_and_function",no([](PL& q){ q.sublist("k").set("Type","Fixed Value").set("Sides","n0").set("Value",1.0).set("Function","t"); }));
  sx::ok("empty_set_accepted",!no([](PL& q){ q.sublist("k").set("Type","Zero Value").set("Sides","none"); })); }
S1(essential_mechanics, essential<Plato::SimplexMechanics<2>>()) S1(essential_thermomechanics, essential<Plato::SimplexThermomechanics<2>>()) S1(essential_thermal, essential<Plato::SimplexThermal<2>>())
// cell problem forcing subtracts one column of the stiffness from every cell
S1(cell_forcing, Omega_h::Matrix<3,3> k; for(int i=0;i<3;i++) for(int j=0;j<3;j++) k(i,j)=sx::real(sx::nm("k",i,j),-3,3); for(int col=0;col<3;col++){ Plato::ScalarMultiVector s("s",2,3); for(int c=0;c<2;c++) for(int i=0;i<3;i++) s(c,i)=sx::real(sx::nm("s",c,i),-3,3); Plato::CellForcing<3> f(k,col); f.add(s); for(int c=0;c<2;c++) for(int i=0;i<3;i++) sx::eq(sx::nm("s",c,i,col),s(c,i),sx::real(sx::nm("s",c,i),-3,3)-k(i,col)); })
