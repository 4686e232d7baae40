// Whole steady problems on the small mesh: solve, evaluate a criterion, differentiate it through the solution.
#pragma once
#include "sxcrit.hpp"
#include "sxsolve.hpp"
#include "Simplex.hpp"
#include "geometric/GeometricSimplexFadTypes.hpp"
// clang evaluates NumControls, which a bare Simplex does not have and nothing reads
namespace Plato { namespace Geometric { template<Plato::OrdinalType D> struct EvaluationTypes<Plato::Simplex<D>> { static constexpr int NumNodesPerCell=Plato::Simplex<D>::mNumNodesPerCell,NumControls=1,SpatialDim=Plato::Simplex<D>::mNumSpatialDims; }; } }
#include "Geometrical.hpp"
#include "geometric/GeometryScalarFunction.hpp"
#include "elliptic/Problem.hpp"
// the factories of composite criteria are decided in C25: here every criterion is a plain integral
template<class P> std::shared_ptr<Plato::Elliptic::ScalarFunctionBase> Plato::Elliptic::ScalarFunctionBaseFactory<P>::create(const Plato::SpatialModel& m,Plato::DataMap& d,Teuchos::ParameterList& p,std::string& n){ return std::make_shared<Plato::Elliptic::PhysicsScalarFunction<P>>(m,d,p,n); }
template<class P> std::shared_ptr<Plato::Geometric::ScalarFunctionBase> Plato::Geometric::ScalarFunctionBaseFactory<P>::create(const Plato::SpatialModel& m,Plato::DataMap& d,Teuchos::ParameterList& p,std::string& n){ return std::make_shared<Plato::Geometric::GeometryScalarFunction<P>>(m,d,p,n); }
struct Fix { int node,dof; const char* value; };   // value: 0 for a zero condition, a function of time after '=', else the name of a symbolic value
template<class Q> void constrain(Q& q,const std::vector<Fix>& fs,double lo=-2,double hi=2){ int k=0; for(auto& f:fs){ std::string s=sx::nm("ns",k),b=sx::nm("Essential Boundary Conditions/bc",k); k++; q.m.nodeset(s.c_str(),{f.node}); auto& l=at(q.p,b.c_str()); bool tf=f.value&&f.value[0]=='='; l.set("Type",tf?"Time Dependent":f.value?"Fixed Value":"Zero Value").set("Index",f.dof).set("Sides",s); if(tf) l.set("Function",f.value+1); else if(f.value) l.set("Value",sx::real(f.value,lo,hi)); } }
// densities: symbolic at the listed nodes; {-1} is solid everywhere
template<class Q> Plato::ScalarVector dens(Q& q,const std::vector<int>& zs){ Plato::ScalarVector z("z",q.m.N); for(int i=0;i<q.m.N;i++) z(i)=0.25+0.125*(i%4); for(int i:zs){ if(i<0) for(int k=0;k<q.m.N;k++) z(k)=1; else z(i)=sx::real(sx::nm("z",i),0.1,1); } return z; }
template<class Ph,int D,class Q> struct Prob { typedef Plato::Elliptic::Problem<Ph> P; Q& q; std::vector<Fix> fs; std::vector<int> zs; Plato::ScalarVector z; std::shared_ptr<P> p; Plato::Solution s; Plato::Comm::Machine mc;
  Prob(Q& q_,std::vector<Fix> f,std::vector<int> zs_):q(q_),fs(f),zs(zs_){ constrain(q,fs); z=dens(q,zs); q.p.set("PDE Constraint",q.t); p=std::make_shared<P>(q.m.mesh,q.m.sets,q.p,mc); p->readEssentialBoundaryConditions(q.p); s=p->solution(z); }
  // prescribed values are met exactly and every other equation is in balance
  void solved(){ int R=q.m.N*q.dof; sx::ieq("steps",s.State.extent(0),1); sx::ieq("size",s.State.extent(1),R); q.sm=std::make_shared<Plato::SpatialModel>(q.m.mesh,q.m.sets,q.p); q.f=std::make_shared<typename Q::F>(*q.sm,q.dm,q.p,q.t); q.u=Plato::ScalarVector("u",R); for(int i=0;i<R;i++) q.u(i)=s.State(0,i); auto r=q.f->value(q.u,z); std::vector<char> c(R,0);
    for(auto& f:fs){ int i=f.node*q.dof+f.dof; c[i]=1; sx::eq(sx::nm("prescribed",i),q.u(i),f.value?sx::real(f.value,-2,2):0.0); } for(int i=0;i<R;i++) if(!c[i]) sx::eq(sx::nm("balance",i),r(i),0.0); auto g=p->getGlobalSolution(); for(int i=0;i<R;i++) sx::eq(sx::nm("kept",i),g.State(0,i),s.State(0,i)); }
  double value(const char* n){ double v=p->criterionValue(z,s,n); sx::eq(std::string(n)+"_stored",p->criterionValue(z,n),v); return v; }
  void gradZ(const char* n){ double v=value(n); auto g=p->criterionGradient(z,s,n),h=p->criterionGradient(z,n); sx::ieq("z_size",g.size(),q.m.N); for(int i=0;i<q.m.N;i++) sx::eq(sx::nm("stored_dz",i),h(i),g(i)); for(int i:zs) sx::deriv(std::string(n)+sx::nm("_dz",i),g(i),v,z(i)); }
  void gradX(const char* n){ double v=value(n); auto g=p->criterionGradientX(z,s,n),h=p->criterionGradientX(z,n); sx::ieq("x_size",g.size(),q.m.N*D); for(int i=0;i<q.m.N*D;i++) sx::eq(sx::nm("stored_dx",i),h(i),g(i)); for(int k:q.xs) for(int d=0;d<D;d++) sx::deriv(std::string(n)+sx::nm("_dx",k,d),g(k*D+d),v,sx::real(sx::nm("x",k,d),-0.125,0.125)); }
};
