// Whole transient problems on the small mesh: march in time, evaluate a criterion, differentiate it through the history.
#pragma once
#include "sxtime.hpp"
#include "sxprob.hpp"
template<class P,int K,int D,class Q> struct Trans { Q& q; std::vector<Fix> fs; std::vector<int> zs; double dt; int steps,R; Plato::ScalarVector z; Plato::Comm::Machine mc; std::shared_ptr<P> p; Plato::Solution s;
  Trans(Q& q_,std::vector<Fix> f,std::vector<int> zs_,double dt_,int steps_):q(q_),fs(f),zs(zs_),dt(dt_),steps(steps_){ R=q.m.N*q.dof; constrain(q,fs); if(K==3){ at(q.p,"Displacement Boundary Conditions").setParameters(at(q.p,"Essential Boundary Conditions")); } z=dens(q,zs); q.p.set("PDE Constraint",q.t); at(q.p,"Time Integration").set("Number Time Steps",steps).set("Time Step",dt); p=std::make_shared<P>(q.m.mesh,q.m.sets,q.p,mc); s=p->solution(z); }
  Plato::ScalarMultiVector fld(const Plato::Solution& s,int k) const { return k==0?s.State:k==1?s.StateDot:s.StateDotDot; }
  double y(int k,int n,int i) const { return fld(s,k)(n,i); }
  SV at_(int k,int n) const { SV v("v",R); for(int i=0;i<R;i++) v(i)=y(k,n,i); return v; }
  // functions of time are 2 t + 1; every step: prescribed values met, the remaining equations in balance, rates related by the integrator; init: initial value of dof i
  template<class F,class I> void marched(F value,I init){ sx::ieq("steps",s.State.extent(0),steps); sx::ieq("size",s.State.extent(1),R); for(int i=0;i<R;i++) for(int k=0;k<K;k++) sx::eq(sx::nm("initial",k,i),y(k,0,i),init(k,i));
    for(int n=1;n<steps;n++){ std::vector<char> c(R,0); for(auto& f:fs){ int i=f.node*q.dof+f.dof; c[i]=1; sx::eq(sx::nm("prescribed",n,i),y(0,n,i),f.value&&f.value[0]=='='?2*n*dt+1:f.value?sx::real(f.value,-2,2):0.0); } SV r=value(n); for(int i=0;i<R;i++) if(!c[i]) sx::eq(sx::nm("balance",n,i),r(i),0.0); }
    auto g=p->getGlobalSolution(); for(int k=0;k<K;k++) for(int i=0;i<R;i++) sx::eq(sx::nm("kept",k,i),fld(g,k)(steps-1,i),y(k,steps-1,i)); }
  void again(){ std::vector<double> a; for(int k=0;k<K;k++) for(int n=0;n<steps;n++) for(int i=0;i<R;i++) a.push_back(y(k,n,i)); auto t=p->solution(z); int j=0; for(int k=0;k<K;k++) for(int n=0;n<steps;n++) for(int i=0;i<R;i++) sx::eq(sx::nm("again",k,n,i),fld(t,k)(n,i),a[j++]); }
  double value(const char* n){ double v=p->criterionValue(z,s,n); sx::eq(std::string(n)+"_stored",p->criterionValue(z,n),v); return v; }
  void gradZ(const char* n){ double v=value(n); auto g=p->criterionGradient(z,s,n),h=p->criterionGradient(z,n); sx::ieq("z_size",g.size(),q.m.N); for(int i=0;i<q.m.N;i++) sx::eq(sx::nm("stored_dz",i),h(i),g(i)); for(int i:zs) sx::deriv(std::string(n)+sx::nm("_dz",i),g(i),v,z(i)); }
  void gradX(const char* n){ double v=value(n); auto g=p->criterionGradientX(z,s,n),h=p->criterionGradientX(z,n); sx::ieq("x_size",g.size(),q.m.N*D); for(int i=0;i<q.m.N*D;i++) sx::eq(sx::nm("stored_dx",i),h(i),g(i)); for(int k:q.xs) for(int d=0;d<D;d++) sx::deriv(std::string(n)+sx::nm("_dx",k,d),g(k*D+d),v,sx::real(sx::nm("x",k,d),-0.125,0.125)); }
};
