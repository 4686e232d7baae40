// Criteria on the small mesh: built from the input list, compared with a formula stated by the check, gradients compared with derivatives of the value.
#pragma once
#include "sxell.hpp"
#include "elliptic/PhysicsScalarFunction.hpp"
typedef Teuchos::Array<std::string> As;
struct Crit { std::vector<Plato::ScalarVector> us; Plato::Solution sol; std::shared_ptr<Plato::Elliptic::ScalarFunctionBase> f; int free=99,zfree=99; };
// states of the given number of load steps, symbolic at the first so many nodes
template<class Q> void states(Q& q,Crit& k,int steps,double lo=-1,double hi=1,int free=99){ int n=q.m.N*q.dof; Plato::ScalarMultiVector S("states",steps,n); for(int s=0;s<steps;s++){ Plato::ScalarVector u("u",n); for(int i=0;i<n;i++){ u(i)=i>=free*q.dof?((i*3)%7-3)*0.25:sx::real(steps==1?sx::nm("u",i):sx::nm("u",s,i),lo,hi); S(s,i)=u(i); } k.us.push_back(u); } k.sol=Plato::Solution(S); }
template<class Ph,class Q> Crit make(Q& q,std::string name,int steps=1,int free=99,int zfree=99,double lo=-1,double hi=1){ Crit k; k.free=free; k.zfree=zfree; q.model(lo,hi); for(int i=zfree;i<q.m.N;i++) q.z(i)=0.25+0.125*(i%4); states(q,k,steps,lo,hi,free); q.u=k.us[0]; k.f=std::make_shared<Plato::Elliptic::PhysicsScalarFunction<Ph>>(*q.sm,q.dm,q.p,name); return k; }
template<int D,class Q> void gradients(Q& q,Crit& k,Wrt w){ if(!k.f) return; int R=q.m.N*q.dof; double v=k.f->value(k.sol,q.z);
  if(w.u) for(size_t s=0;s<k.us.size();s++){ auto g=k.f->gradient_u(k.sol,q.z,s); sx::ieq("u_size",g.size(),R); if((int)g.size()==R) for(int i=0;i<R&&i<k.free*q.dof;i++) sx::deriv(k.us.size()==1?sx::nm("df_du",i):sx::nm("df_du",s,i),g(i),v,k.us[s](i)); }
  if(w.z){ auto g=k.f->gradient_z(k.sol,q.z); sx::ieq("z_size",g.size(),q.m.N); if((int)g.size()==q.m.N) for(int i=0;i<q.m.N&&i<k.zfree;i++) sx::deriv(sx::nm("df_dz",i),g(i),v,q.z(i)); }
  if(w.x&&q.xs.size()){ auto g=k.f->gradient_x(k.sol,q.z); sx::ieq("x_size",g.size(),q.m.N*D); if((int)g.size()==q.m.N*D) for(int n:q.xs) for(int d=0;d<D;d++) sx::deriv(sx::nm("df_dx",n*D+d),g(n*D+d),v,sx::real(sx::nm("x",n,d),-0.125,0.125)); } }
inline Teuchos::ParameterList& criterion(Teuchos::ParameterList& p,const std::string& n,const char* type,const char* scalar=0,const Pen* pen=0){ auto& l=at(p,("Criteria/"+n).c_str()); l.set("Type",type); if(scalar) l.set("Scalar Function Type",scalar); if(pen) pen->put(l.sublist("Penalty Function")); return l; }
