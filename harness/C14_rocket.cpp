// C14: algebraic rocket model: pressure balance by Newton, thrust, burn rate, time stepping; cylindrical chamber geometry.
#include "sxplato.hpp"
#include <memory>
#include "Plato_GeometryModel.hpp"
#include "Plato_Cylinder.hpp"
#include "Plato_AlgebraicRocketModel.hpp"
static const double PI=M_PI;
struct Stop{};
struct Geo : GeometryModel { std::vector<double> m,dt,mult; size_t calls=0,stop=1000; int inits=0,steps=-1; 
  double area() override { return 0; } void output(bool) override {} void gradient(std::vector<double>&) override {} void initialize(const ProblemParams& p) override { inits++; steps=p.mNumTimeSteps; } void updateGeometry(const ProblemParams&) override {}
  double referenceMassProductionRate() override { if(calls>=stop) throw Stop(); return m[calls++]; }
  void evolveGeometry(const double d,const double b) override { dt.push_back(d); mult.push_back(b); } };
struct In { double al,pref,D,cs,amb,dt,A; AlgebraicRocketInputs in; };
static In inputs(double total,double tol,size_t itr,double alo=0,double ahi=0.9){ In r; r.al=alo==ahi?alo:sx_real("alpha",alo,ahi); r.pref=sx_real("pref",0.5,10); r.D=sx_real("D",0.1,2); r.cs=sx_real("cstar",1,50); r.amb=sx_real("amb",0,1); r.dt=sx_real("dt",0.1,0.4); r.A=PI*r.D*r.D/4;
  r.in.mAlpha=r.al; r.in.mRefPressure=r.pref; r.in.mThroatDiameter=r.D; r.in.mCharacteristicVelocity=r.cs; r.in.mAmbientPressure=r.amb; r.in.mDeltaTime=r.dt; r.in.mTotalBurnTime=total; r.in.mNewtonTolerance=tol; r.in.mMaxNumNewtonItr=itr; return r; }
static double res(const In& r,double m,double p){ return m*pow(p,r.al)/pow(r.pref,r.al)-r.A*p/r.cs; }
static double jac(const In& r,double m,double p){ return m*r.al*pow(p,r.al-1)/pow(r.pref,r.al)-r.A/r.cs; }
static double thrust(const In& r,double p){ return 269.0*9.8*r.A*(p-r.amb)/r.cs; }
// pressure-independent burning: the balance is linear and Newton must land on it exactly, each step
static void linear(bool setters){ In r=inputs(1,1e-8,20,0,0); double tot=sx_real("total",0.5,1); r.in.mTotalBurnTime=tot; auto g=std::make_shared<Geo>(); for(int i=0;i<12;i++) g->m.push_back(sx::real(sx::nm("m",i),0.1,10)); sx_assume(r.dt>0.35);
  AlgebraicRocketModel k(setters?AlgebraicRocketInputs():r.in,g); if(setters){ k.setBurnRateExponent(r.al); k.setRefPressure(r.pref); k.setThroatDiameter(r.D); k.setCharacteristicVelocity(r.cs); k.setAmbientPressure(r.amb); k.setBurnTimeStep(r.dt); k.setTotalBurnTime(tot); k.setMaxNumIterations(20); }
  k.disableOutput(); k.solve();
  auto t=k.getTimeProfile(); auto T=k.getThrustProfile(); auto P=k.getPressuresProfile(); sx::ok("same_size",t.size()==T.size()&&t.size()==P.size()); sx::ok("nonempty",t.size()>=1);
  sx::eq("t0",t[0],0); sx::eq("thrust0",T[0],0); sx::eq("p0",P[0],r.pref);
  for(size_t i=1;i<t.size();i++){ sx::eq(sx::nm("time",i),t[i],i*r.dt); double p=g->m[i-1]*r.cs/r.A; sx::eq(sx::nm("balance",i),P[i],p); sx::eq(sx::nm("thrust",i),T[i],thrust(r,p)); }
  sx::ieq("steps",g->dt.size(),t.size()); for(size_t i=0;i<g->dt.size();i++){ sx::eq(sx::nm("evolve_dt",i),g->dt[i],r.dt); sx::eq(sx::nm("evolve_rate",i),g->mult[i],1); }
  sx::le("covers_burn_time",tot,t.size()*r.dt+2e-8); sx::le("stops_at_burn_time",t.back(),tot);
  k.solve(); sx::ieq("solve_again_restarts",k.getTimeProfile().size(),t.size()); sx::eq("restart_time",k.getTimeProfile()[0],0); }
SC(linear_balance,linear(false)) SC(linear_setters,linear(true))
// general burn-rate exponent: the iterates are Newton's on the balance equation and the loop stops at the first one within tolerance
static void newton(int n){ double tol=sx_real("tol",1e-6,10); In r=n==1?inputs(0,tol,50):inputs(0,tol,50,0.5,0.5); if(n>1){ r.in.mRefPressure=r.pref=1; r.in.mThroatDiameter=r.D=2; r.A=PI; r.in.mCharacteristicVelocity=r.cs=PI; } r.in.mTotalBurnTime=1.5*r.dt+tol; double m=sx_real("m",0.1,10); auto g=std::make_shared<Geo>(); g->m.push_back(m); g->stop=1;
  double p=r.pref; for(int i=1;i<=n;i++){ double j=jac(r,m,p); sx_assume(j<-1e-3); double q=p-res(r,m,p)/j; sx_assume(q>0.01); bool done=fabs(q-p)<tol; sx_assume(i==n?done:!done); p=q; }
  AlgebraicRocketModel k(r.in,g); k.disableOutput(); try { k.solve(); } catch(const Stop&){} 
  auto t=k.getTimeProfile(); auto T=k.getThrustProfile(); auto P=k.getPressuresProfile(); sx::ieq("entries",t.size(),2); sx::eq("time",t[1],r.dt); sx::eq("pressure",P[1],p); sx::eq("thrust",T[1],thrust(r,p)); sx::ieq("evolved",g->dt.size(),1); sx::eq("rate",g->mult[0],pow(p,r.al)/pow(r.pref,r.al)); sx::eq("dt",g->dt[0],r.dt); }
SC(newton_1,newton(1)) SC(newton_2,newton(2))
// a balanced chamber stays balanced
SC(steady, In r=inputs(0,1e-8,50); r.in.mTotalBurnTime=1.5*r.dt; double m=r.A*r.pref/r.cs; auto g=std::make_shared<Geo>(); g->m.push_back(m); g->m.push_back(m); g->stop=2; sx_assume(r.al<=0.8); AlgebraicRocketModel k(r.in,g); k.disableOutput(); k.solve(); auto P=k.getPressuresProfile(); sx::ieq("n",P.size(),2); sx::eq("p",P[1],r.pref); sx::eq("rate",g->mult[1],1); sx::eq("T",k.getThrustProfile()[1],thrust(r,r.pref)))
SC(init_steps, int n=sx_int32("n",1,6); double dt=sx_real("dt",0.1,4); In r=inputs(0,1e-8,5,0,0); r.in.mDeltaTime=dt; double tot=sx_real("tot",0.1,20); sx_assume(tot>=n*dt && tot<(n+1)*dt); r.in.mTotalBurnTime=tot; auto g=std::make_shared<Geo>(); AlgebraicRocketModel k(r.in,g); ProblemParams p; k.initialize(p); sx::ieq("initialised",g->inits,1); sx::ieq("steps",p.mNumTimeSteps,n); sx::ieq("passed_on",g->steps,n))
// cylindrical chamber
static ProblemParams cyl(double L,double R,double b,double rho){ ProblemParams p; p.mGeometry={sx_real("maxR",1,2),L,R}; p.mRefBurnRate={b,sx_real("slope",-1,1)}; p.mPropellantDensity=rho; return p; }
SC(cylinder, double L=sx_real("L",0.1,10); double R=sx_real("R",0.01,5); double b=sx_real("b",0,1); double rho=sx_real("rho",0.1,2000); Cylinder c; auto p=cyl(L,R,b,rho); c.initialize(p);
  sx::eq("radius",c.radius(),R); sx::eq("length",c.length(),L); sx::eq("area",c.area(),2*PI*R*L); sx::eq("mass",c.referenceMassProductionRate(),b*rho*2*PI*R*L); std::vector<double> g(2); c.gradient(g); sx::deriv("dA_dR",g[0],c.area(),R); sx::deriv("dA_dL",g[1],c.area(),L);
  double dt=sx_real("dt",0,1); double k=sx_real("k",0,10); c.evolveGeometry(dt,k); sx::eq("regressed",c.radius(),R+k*b*dt); sx::eq("length_kept",c.length(),L); sx::eq("mass_after",c.referenceMassProductionRate(),b*rho*2*PI*(R+k*b*dt)*L); sx::le("only_grows",R,c.radius()); c.output(false); sx::eq("output_no_effect",c.radius(),R+k*b*dt); c.updateGeometry(p); sx::eq("update",c.radius(),R); c.initialize(p); sx::eq("init",c.radius(),R))
// model and geometry together: mass consumed equals the regression of the chamber (two steps, pressure-independent burning)
SC(coupled, In r=inputs(0,1e-8,20,0,0); r.in.mTotalBurnTime=2.5*r.dt; double L=sx_real("L",0.5,2); double R=sx_real("R",0.1,1); double b=sx_real("b",0.01,1); double rho=sx_real("rho",0.5,5); auto c=std::make_shared<Cylinder>(); AlgebraicRocketModel k(r.in,c); auto p=cyl(L,R,b,rho); k.initialize(p); k.disableOutput(); k.solve();
  auto P=k.getPressuresProfile(); sx::ieq("n",P.size(),3); sx::eq("radius",c->radius(),R+3*b*r.dt); for(int i=1;i<3;i++) sx::eq(sx::nm("p",i),P[i],b*rho*2*PI*(R+(i-1)*b*r.dt)*L*r.cs/r.A))
