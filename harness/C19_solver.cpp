// C19: nonlinear-solver bookkeeping and the reading of its parameters.
#include "sxplato.hpp"
#include <Teuchos_ParameterList.hpp>
#include <cctype>
#include "ParseTools.hpp"
#include <fstream>
#include <iomanip>
#include <sstream>
#include <algorithm>
#include "BLAS1.hpp"
#include "NewtonRaphsonUtilities.hpp"
typedef Teuchos::ParameterList PL;
// ------------------------------------------------ stopping measure: history of n residual norms
static void measure(bool rel,int n){ NewtonRaphsonOutputData d; sx::ok("starts_unconverged",d.mStopingCriterion==NewtonRaphson::DID_NOT_CONVERGE); sx::ok("starts_large",d.mNormMeasure>1e100); double prev=0;
  for(int i=0;i<n;i++){ double c=sx::real(sx::nm("norm",i),0.001,1000); d.mCurrentIteration=i; d.mCurrentNorm=c; double before=d.mNormMeasure; if(rel) compute_relative_residual_norm_error(d); else compute_absolute_residual_norm_error(d);
    if(i==0) sx::ok("no_measure_at_first",d.mNormMeasure==before&&before>1e100); else { double e=fabs(prev-c); if(rel) e/=c; sx::eq(sx::nm("measure",i),d.mNormMeasure,e); }
    sx::eq(sx::nm("reference",i),d.mReferenceNorm,c); sx::eq(sx::nm("current",i),d.mCurrentNorm,c); sx::ieq(sx::nm("iteration",i),d.mCurrentIteration,i); prev=c; } }
SC(absolute,measure(false,4)) SC(relative,measure(true,4))
// a solve that restarts (iteration 0 again) forgets the previous one
static void restart(bool rel){ NewtonRaphsonOutputData d; auto f=[&](int i,double c){ d.mCurrentIteration=i; d.mCurrentNorm=c; if(rel) compute_relative_residual_norm_error(d); else compute_absolute_residual_norm_error(d); }; double a=sx_real("a",0.1,10),b=sx_real("b",0.1,10),c=sx_real("c",0.1,10),e=sx_real("e",0.1,10); f(0,a); f(1,b); f(0,c); f(1,e); sx::eq("measure",d.mNormMeasure,rel?fabs(c-e)/e:fabs(c-e)); }
SC(restart_absolute,restart(false)) SC(restart_relative,restart(true))
SC(not_finite, double bad[4]={NAN,INFINITY,-INFINITY,1.0}; int k=sx_int32("k",0,3); int w=sx_int32("which",0,1); int r=sx_int32("rel",0,1); int it=sx_int32("it",0,2); NewtonRaphsonOutputData d; d.mCurrentNorm=1; d.mReferenceNorm=1; double v=1; for(int i=0;i<4;i++) if(k==i) v=bad[i]; if(w) d.mCurrentNorm=v; else d.mReferenceNorm=v; d.mCurrentIteration=it; bool t=sx::throws([&]{ if(r) compute_relative_residual_norm_error(d); else compute_absolute_residual_norm_error(d); }); sx::ok(k<3?"rejected":"accepted",k<3?t:!t))
// names of the stopping measures: case does not matter, nothing else is accepted
static std::string mixed(std::string s,int n){ for(int i=0,k=0;i<(int)s.size()&&k<n;i++) if(isalpha(s[i])){ if(sx::int32(sx::nm("case",i),0,1)) s[i]=tolower(s[i]); else s[i]=toupper(s[i]); k++; } return s; }
SC(criterion_absolute, sx::ok("absolute",newton_raphson_stopping_criterion(mixed("absolute residual norm",sx::thorough()?9:6))==NewtonRaphson::ABSOLUTE_RESIDUAL_NORM))
SC(criterion_relative, sx::ok("relative",newton_raphson_stopping_criterion(mixed("RELATIVE RESIDUAL NORM",sx::thorough()?9:6))==NewtonRaphson::RELATIVE_RESIDUAL_NORM))
SC(distinct_codes, sx::ok("measures",NewtonRaphson::ABSOLUTE_RESIDUAL_NORM!=NewtonRaphson::RELATIVE_RESIDUAL_NORM&&NewtonRaphson::DISPLACEMENT_NORM!=NewtonRaphson::ABSOLUTE_RESIDUAL_NORM&&NewtonRaphson::DISPLACEMENT_NORM!=NewtonRaphson::RELATIVE_RESIDUAL_NORM); int s[]={NewtonRaphson::DID_NOT_CONVERGE,NewtonRaphson::MAX_NUMBER_ITERATIONS,NewtonRaphson::NORM_MEASURE_TOLERANCE,NewtonRaphson::CURRENT_NORM_TOLERANCE,NewtonRaphson::NaN_NORM_VALUE,NewtonRaphson::INFINITE_NORM_VALUE}; for(int i=0;i<6;i++) for(int j=0;j<i;j++) sx::ok(sx::nm("stops",i,j),s[i]!=s[j]))
SC(criterion_other, const char* n[]={"","absolute","residual norm","displacement norm","absolute residual norm ","relative_residual_norm","RELATIVE RESIDUAL","abs residual norm"}; int k=sx_int32("k",0,7); std::string s; for(int i=0;i<8;i++) if(k==i) s=n[i]; sx::ok("rejected",sx::throws([&]{ newton_raphson_stopping_criterion(s); })))
// diagnostics never written to a closed file, nor at all when switched off
SC(diagnostics, NewtonRaphsonOutputData d; std::ofstream f; int on=sx_int32("on",0,1); int w=sx_int32("w",0,2); d.mWriteOutput=on; bool t=sx::throws([&]{ if(w==0) print_newton_raphson_diagnostics(d,f); else if(w==1) print_newton_raphson_diagnostics_header(d,f); else print_newton_raphson_stop_criterion(d,f); }); sx::ok("closed_file",t==(on!=0)))
// ------------------------------------------------ parameters: given value, documented default, never something else
static void param(){ int k=sx_int32("kind",0,3); double v=sx_real("v",-10,10),def=sx_real("def",-10,10); int iv=sx_int32("iv",-10,10); PL p("p"); if(k==1) p.set<double>("x",v); if(k==2) p.set<int>("x",iv); if(k==3) p.sublist("x"); p.set<double>("y",def);
  double r=0,q=0; bool t=sx::throws([&]{ r=ParseTools::getParam<double>(p,"x",def); }); bool u=sx::throws([&]{ q=ParseTools::getParam<double>(p,"x"); });
  if(k==0){ sx::ok("default_ok",!t); sx::eq("default",r,def); sx::ok("required",u); sx::ok("not_added",!p.isParameter("x")); }
  if(k==1){ sx::ok("given_ok",!t&&!u); sx::eq("given",r,v); sx::eq("given_required",q,v); }
  if(k>=2){ sx::ok("wrong_type_rejected",t); sx::ok("wrong_type_required",u); } sx::eq("other_kept",p.get<double>("y"),def); }
SC(param_scalar,param())
SC(param_sub, int k=sx_int32("kind",0,3); double v=sx_real("v",-10,10); double def=sx_real("def",-10,10); PL p("p"); if(k>=1) p.sublist("s"); if(k==2) p.sublist("s").set<double>("x",v); if(k==3) p.sublist("s").set<std::string>("x","1"); p.set<double>("x",77.0); double r=0; bool t=sx::throws([&]{ r=ParseTools::getSubParam<double>(p,"s","x",def); }); if(k<2){ sx::ok("default_ok",!t); sx::eq("default",r,def); } if(k==2){ sx::ok("given_ok",!t); sx::eq("given",r,v); } if(k==3) sx::ok("wrong_type_rejected",t))
SC(param_sub_int, int k=sx_int32("kind",0,2); int v=sx_int32("v",-10,10); int def=sx_int32("def",-10,10); PL p("p"); if(k>=1) p.sublist("s"); if(k==2) p.sublist("s").set<int>("x",v); sx::ieq("value",ParseTools::getSubParam<int>(p,"s","x",def),k==2?v:def))
