// C13: Newmark and trapezoid time integrators: residuals vanish exactly on the scheme, coefficients are the residuals' derivatives.
#include "sxplato.hpp"
#include <Teuchos_ParameterList.hpp>
#include "hyperbolic/Newmark.hpp"
#include "parabolic/TrapezoidIntegrator.hpp"
struct Ev{};
static const int M=3;
static void unchanged(const char* n,const ScalarVector& v){ kept1(n,v); }
SC(newmark_residual, double g=sx_real("g",0,2); double b=sx_real("b",0.05,2); double dt=sx_real("dt",0.001,10); Teuchos::ParameterList l; l.set<double>("Newmark Gamma",g); l.set<double>("Newmark Beta",b); NewmarkIntegrator<Ev> k(l);
  auto u=sv("u",M),up=sv("up",M),v=sv("v",M),vp=sv("vp",M),a=sv("a",M),ap=sv("ap",M);
  auto rv=k.v_value(u,up,v,vp,a,ap,dt); auto ra=k.a_value(u,up,v,vp,a,ap,dt); sx::ieq("size_v",rv.extent(0),M); sx::ieq("size_a",ra.extent(0),M);
  for(int i=0;i<M;i++){ // definitions
    sx::eq(sx::nm("scheme_a",i),b*dt*dt*ra(i), b*dt*dt*a(i)-(u(i)-up(i)-dt*vp(i)-dt*dt*(0.5-b)*ap(i)));
    sx::eq(sx::nm("scheme_v",i),b*dt*rv(i), b*dt*(v(i)-vp(i)-(1-g)*dt*ap(i))-g*(u(i)-up(i)-dt*vp(i)-dt*dt*(0.5-b)*ap(i))); }
  for(int i=0;i<M;i++){ sx::deriv(sx::nm("dv_du",i),k.v_grad_u(dt),rv(i),u(i)); sx::deriv(sx::nm("dv_dup",i),k.v_grad_u_prev(dt),rv(i),up(i)); sx::deriv(sx::nm("dv_dv",i),1,rv(i),v(i)); sx::deriv(sx::nm("dv_dvp",i),k.v_grad_v_prev(dt),rv(i),vp(i)); sx::deriv(sx::nm("dv_da",i),0,rv(i),a(i)); sx::deriv(sx::nm("dv_dap",i),k.v_grad_a_prev(dt),rv(i),ap(i));
    sx::deriv(sx::nm("da_du",i),k.a_grad_u(dt),ra(i),u(i)); sx::deriv(sx::nm("da_dup",i),k.a_grad_u_prev(dt),ra(i),up(i)); sx::deriv(sx::nm("da_dv",i),0,ra(i),v(i)); sx::deriv(sx::nm("da_dvp",i),k.a_grad_v_prev(dt),ra(i),vp(i)); sx::deriv(sx::nm("da_da",i),1,ra(i),a(i)); sx::deriv(sx::nm("da_dap",i),k.a_grad_a_prev(dt),ra(i),ap(i));
    for(int j=0;j<M;j++) if(j!=i){ sx::deriv(sx::nm("v_local",i,j),0,rv(i),u(j)); sx::deriv(sx::nm("a_local",i,j),0,ra(i),u(j)); sx::deriv(sx::nm("v_localv",i,j),0,rv(i),vp(j)); sx::deriv(sx::nm("a_locala",i,j),0,ra(i),ap(j)); } }
  unchanged("u",u); unchanged("up",up); unchanged("v",v); unchanged("vp",vp); unchanged("a",a); unchanged("ap",ap))
// a step taken by the scheme (u, v from a) is a root of both residuals, and the driver's update (v,a from u by subtracting the residual) lands on it
SC(newmark_step, double g=sx_real("g",0,2); double b=sx_real("b",0.05,2); double dt=sx_real("dt",0.001,10); Teuchos::ParameterList l; l.set<double>("Newmark Gamma",g); l.set<double>("Newmark Beta",b); NewmarkIntegrator<Ev> k(l);
  auto up=sv("up",M),vp=sv("vp",M),a=sv("a",M),ap=sv("ap",M); ScalarVector u("u",M),v("v",M),z("z",M); for(int i=0;i<M;i++){ u(i)=up(i)+dt*vp(i)+dt*dt*((0.5-b)*ap(i)+b*a(i)); v(i)=vp(i)+dt*((1-g)*ap(i)+g*a(i)); }
  auto rv=k.v_value(u,up,v,vp,a,ap,dt); auto ra=k.a_value(u,up,v,vp,a,ap,dt); for(int i=0;i<M;i++){ sx::eq(sx::nm("v_root",i),rv(i),0); sx::eq(sx::nm("a_root",i),ra(i),0); }
  auto zv=k.v_value(u,up,z,vp,z,ap,dt); auto za=k.a_value(u,up,z,vp,z,ap,dt); for(int i=0;i<M;i++){ sx::eq(sx::nm("v_update",i),0-zv(i),v(i)); sx::eq(sx::nm("a_update",i),0-za(i),a(i)); })
// exact for constant acceleration
SC(newmark_constant_acceleration, double g=sx_real("g",0,2); double b=sx_real("b",0.05,2); double dt=sx_real("dt",0.001,10); Teuchos::ParameterList l; l.set<double>("Newmark Gamma",g); l.set<double>("Newmark Beta",b); NewmarkIntegrator<Ev> k(l);
  auto up=sv("up",M),vp=sv("vp",M),a=sv("a",M); ScalarVector u("u",M),v("v",M); for(int i=0;i<M;i++){ u(i)=up(i)+dt*vp(i)+0.5*dt*dt*a(i); v(i)=vp(i)+dt*a(i); }
  auto rv=k.v_value(u,up,v,vp,a,a,dt); auto ra=k.a_value(u,up,v,vp,a,a,dt); for(int i=0;i<M;i++){ sx::eq(sx::nm("v_root",i),rv(i),0); sx::eq(sx::nm("a_root",i),ra(i),0); })
// average-acceleration Newmark conserves the energy of an undamped oscillator, whatever the step
SC(newmark_energy, double dt=sx_real("dt",0.001,10); double w=sx_real("w",0.01,100); Teuchos::ParameterList l; l.set<double>("Newmark Gamma",0.5); l.set<double>("Newmark Beta",0.25); NewmarkIntegrator<Ev> k(l);
  ScalarVector up("up",1),vp("vp",1),ap("ap",1),u("u",1),z("z",1); up(0)=sx_real("u0",-10,10); vp(0)=sx_real("v0",-10,10); ap(0)=-w*up(0);
  // solve a(u) + w u = 0 with a(u) = -a_value(u,..,0): linear in u
  auto r0=k.a_value(z,up,z,vp,z,ap,dt); double c=-k.a_grad_u(dt); u(0)=r0(0)/(c+w); 
  auto rv=k.v_value(u,up,z,vp,z,ap,dt); auto ra=k.a_value(u,up,z,vp,z,ap,dt); sx::eq("motion",0-ra(0)+w*u(0),0); sx::eq("energy",rv(0)*rv(0)+w*u(0)*u(0),vp(0)*vp(0)+w*up(0)*up(0)))
SC(newmark_parameters_required, int k=sx_int32("k",0,2); Teuchos::ParameterList l; if(k==1) l.set<double>("Newmark Gamma",0.5); if(k==2) l.set<double>("Newmark Beta",0.25); sx::ok("rejected",sx::throws([&]{ NewmarkIntegrator<Ev> n(l); })))
static void trap(bool def){ double al=def?0.5:sx_real("al",0.01,1); double dt=sx_real("dt",0.001,10); Teuchos::ParameterList l; if(!def) l.set<double>("Trapezoid Alpha",al); Parabolic::TrapezoidIntegrator<Ev> k(l);
  auto u=sv("u",M),up=sv("up",M),v=sv("v",M),vp=sv("vp",M); auto r=k.v_value(u,up,v,vp,dt); sx::ieq("size",r.extent(0),M);
  for(int i=0;i<M;i++){ sx::eq(sx::nm("scheme",i),al*dt*r(i),al*dt*v(i)-(u(i)-up(i)-dt*(1-al)*vp(i)));
    sx::deriv(sx::nm("du",i),k.v_grad_u(dt),r(i),u(i)); sx::deriv(sx::nm("dup",i),k.v_grad_u_prev(dt),r(i),up(i)); sx::deriv(sx::nm("dv",i),1,r(i),v(i)); sx::deriv(sx::nm("dvp",i),k.v_grad_v_prev(dt),r(i),vp(i)); for(int j=0;j<M;j++) if(j!=i){ sx::deriv(sx::nm("local",i,j),0,r(i),u(j)); sx::deriv(sx::nm("localv",i,j),0,r(i),vp(j)); } }
  unchanged("u",u); unchanged("up",up); unchanged("v",v); unchanged("vp",vp);
  ScalarVector w("w",M),z("z",M); for(int i=0;i<M;i++) w(i)=up(i)+dt*((1-al)*vp(i)+al*v(i)); auto q=k.v_value(w,up,v,vp,dt); auto s=k.v_value(w,up,z,vp,dt); for(int i=0;i<M;i++){ sx::eq(sx::nm("root",i),q(i),0); sx::eq(sx::nm("update",i),0-s(i),v(i)); } }
SC(trapezoid,trap(false)) SC(trapezoid_default,trap(true))
// second order: exact for a linear rate with the default parameter, first order (constant rate) for any
SC(trapezoid_order, double dt=sx_real("dt",0.001,10); double al=sx_real("al",0.01,1); double c0=sx_real("c0",-10,10); double c1=sx_real("c1",-10,10); double c2=sx_real("c2",-10,10); Teuchos::ParameterList l; Parabolic::TrapezoidIntegrator<Ev> k(l); ScalarVector u("u",1),up("up",1),v("v",1),vp("vp",1);
  up(0)=c0; u(0)=c0+c1*dt+c2*dt*dt; vp(0)=c1; v(0)=c1+2*c2*dt; auto r=k.v_value(u,up,v,vp,dt); sx::eq("second_order",r(0),0); Teuchos::ParameterList m; m.set<double>("Trapezoid Alpha",al); Parabolic::TrapezoidIntegrator<Ev> n(m); u(0)=c0+c1*dt; v(0)=c1; auto s=n.v_value(u,up,v,vp,dt); sx::eq("first_order",s(0),0))
