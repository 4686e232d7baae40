// Elliptic residuals on the small mesh: a problem of given physics, its loads, and the comparison with a weak form stated by the check.
#pragma once
#include "sxmat.hpp"
#include "elliptic/VectorFunction.hpp"
typedef Teuchos::Array<double> Ad;
template<template<int> class Ph,int D> struct Ell { typedef Plato::Elliptic::VectorFunction<Ph<D>> F; Msh<D> m; Teuchos::ParameterList p; Plato::DataMap dm; std::string t; std::shared_ptr<Plato::SpatialModel> sm; std::shared_ptr<F> f; Plato::ScalarVector u,z; bool two; Pen pen; int dof; std::vector<int> xs;
  Ell(std::vector<int> xs_,bool two_,const Pen& pen_,int dof_):m(xs_),t("Elliptic"),two(two_),pen(pen_),dof(dof_),xs(xs_){ domains(p,two); pen.put(at(p,"Elliptic/Penalty Function")); }
  void model(double lo=-1,double hi=1){ sm=std::make_shared<Plato::SpatialModel>(m.mesh,m.sets,p); u=vec("u",m.N*dof,lo,hi); z=vec("z",m.N,0.1,1); }
  void go(double lo=-1,double hi=1){ sm=std::make_shared<Plato::SpatialModel>(m.mesh,m.sets,p); f=std::make_shared<F>(*sm,dm,p,t); u=vec("u",m.N*dof,lo,hi); z=vec("z",m.N,0.1,1); }
  int mat(int c) const { return two&&c==0; }
  double w(int c) const { return m.vol(c)*pen(cellMean<D>(m,c,z,1,0)); }
  static std::vector<std::pair<int,int>> loaded(){ if(D==1) return {{1,1}}; if(D==2) return {{1,1},{0,2}}; return {{1,0},{0,2}}; }
  void traction(const char* list,const char* nm,int n){ m.sideset("s",loaded()); Ad v(n); for(int i=0;i<n;i++) v[i]=sx::real(sx::nm(nm,i),-3,3); at(p,(std::string(list)+"/"+nm).c_str()).set("Type","Uniform").set("Sides","s").set("Values",v); }
  void flux(const char* list,const char* nm){ m.sideset("s",loaded()); at(p,(std::string(list)+"/"+nm).c_str()).set("Type","Uniform").set("Sides","s").set("Value",sx::real(sx::nm(nm,0),-3,3)); }
  void addTraction(Vec& o,const char* nm,int n,int off,double sg){ for(auto& s:loaded()) for(int k=0;k<=D;k++) if(k!=s.second) for(int i=0;i<n;i++) o[m.v(s.first,k)*dof+off+i]+=sg*sx::real(sx::nm(nm,i),-3,3)*m.area(s.first,s.second)/D; }
  void body(int i){ at(p,"Body Loads/b").set("Index",i).set("Function","2.0*x+1.0"); }
  void addBody(Vec& o,int i,double sg){ for(int c=0;c<m.NC;c++) for(int k=0;k<=D;k++) o[m.v(c,k)*dof+i]+=sg*(2*m.centroid(c)[0]+1)*cellMean<D>(m,c,z,1,0)*m.vol(c)/(D+1); }
  void same(const Vec& o){ auto r=f->value(u,z); sx::ieq("size",r.size(),m.N*dof); for(int i=0;i<m.N*dof;i++) sx::eq(sx::nm("r",i),r(i),o[i]); }
  // add weight * (S . grad N_n) at dof off+i, or the scalar flux q . grad N_n at dof off
  void addStress(Vec& o,int c,double S[3][3],int off){ for(int n=0;n<=D;n++) for(int i=0;i<D;i++){ double s=0; for(int j=0;j<D;j++) s+=S[i][j]*m.grad(c,n)[j]; o[m.v(c,n)*dof+off+i]+=s*w(c); } }
  void addFlux(Vec& o,int c,const Vec& q,int off){ for(int n=0;n<=D;n++){ double s=0; for(int j=0;j<D;j++) s+=q[j]*m.grad(c,n)[j]; o[m.v(c,n)*dof+off]+=s*w(c); } }
  void derivs(Wrt q){ derivatives<D>(*f,m,u,z,dof,xs,q); }
};
static const Wrt UZ{true,true,true,false}, XX{false,false,false,true}, UU{true,true,false,false}, ZZ{false,false,true,false};
#define S1(n,...) static void n(){ __VA_ARGS__; } SX_TSCENARIO(n,n)
