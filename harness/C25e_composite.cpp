// Criteria built from other criteria through the criterion factory: the stated combination of the parts, and gradients = derivatives of the value at every load step.
#include "sxth.hpp"
#include "sxcrit.hpp"
#include "elliptic/ScalarFunctionBaseFactory.hpp"
#include "elliptic/ScalarFunctionBaseFactory_def.hpp"
#include "elliptic/WeightedSumFunction.hpp"
#include "elliptic/DivisionFunction.hpp"
#include "elliptic/LeastSquaresFunction.hpp"
#include "elliptic/SolutionFunction.hpp"
#include "elliptic/MassPropertiesFunction.hpp"
namespace Omega_h { template<> DiagDecomp<3> decompose_eigen_jacobi<3>(Tensor<3> m){ return DiagDecomp<3>(); } }
typedef Plato::Thermal<2> Ph;
static Crit by(Th<2>& q,std::string name,int steps,int free,int zfree){ Crit k; k.free=free; k.zfree=zfree; q.model(); for(int i=zfree;i<q.m.N;i++) q.z(i)=0.25+0.125*(i%4); states(q,k,steps,-1,1,free); q.u=k.us[0]; Plato::Elliptic::ScalarFunctionBaseFactory<Ph> fac; k.f=fac.create(*q.sm,q.dm,q.p,name); sx::ok("known",k.f!=nullptr); return k; }
static double energyOf(Th<2>& q,Crit& k){ double o=0; for(auto& u:k.us){ q.u=u; for(int c=0;c<q.m.NC;c++){ Vec g=scalGrad<2>(q.m,c,u,1,0); double s=0; for(double y:g) s+=y*y; o+=q.w(c)*q.cond(c)*s; } } return o; }
static double meanOf(Th<2>& q,Crit& k){ auto& u=k.us.back(); return (u(0)+u(2))/2; }
static void parts(Th<2>& q){ criterion(q.p,"e","Scalar Function","Internal Thermal Energy",&q.pen); criterion(q.p,"s","Solution").set("Domain","n"); q.m.nodeset("n",{0,2}); }
static void sum(std::vector<int> xs,int steps,bool nested,bool grad,Wrt w,int free=99,int zfree=99){ Th<2> q(xs,true,SIMP,false); parts(q); double a=sx::real("wa",-3,3),b=sx::real("wb",-3,3),c=sx::real("wc",-3,3); As n(2); n[0]="e"; n[1]="s"; Ad v(2); v[0]=a; v[1]=b; criterion(q.p,"t","Weighted Sum").set("Functions",n).set("Weights",v); if(nested){ n[0]="s"; n[1]="t"; v[0]=c; v[1]=a; criterion(q.p,"tt","Weighted Sum").set("Functions",n).set("Weights",v); }
  auto k=by(q,nested?"tt":"t",steps,free,zfree); if(!k.f) return; if(grad){ gradients<2>(q,k,w); return; } double e=energyOf(q,k),s=meanOf(q,k),o=a*e+b*s; sx::eq("value",k.f->value(k.sol,q.z),nested?c*s+a*o:o); }
static const Wrt NO{false,false,false,false};
S1(sum_2d, sum({},2,false,false,NO)) S1(sum_nested_2d, sum({},2,true,false,NO)) S1(sum_grad_2d, sum({},2,false,true,UZ)) S1(sum_nested_grad_2d, sum({},2,true,true,UZ)) S1(sum_shape_2d, sum({1},2,true,true,XX,2,0))
static void quot(std::vector<int> xs,int steps,bool inv,bool grad,Wrt w,int free=99,int zfree=99){ Th<2> q(xs,true,SIMP,false); parts(q); criterion(q.p,"d","Division").set("Numerator",inv?"s":"e").set("Denominator",inv?"e":"s"); auto k=by(q,"d",steps,free,zfree); if(!k.f) return; double e=energyOf(q,k),s=meanOf(q,k); sx_assume(inv?e>0.01:s>0.125); if(grad) gradients<2>(q,k,w); else sx::eq("value",k.f->value(k.sol,q.z),inv?s/e:e/s); }
S1(division_2d, quot({},2,false,false,NO)) S1(division_inverse_2d, quot({},1,true,false,NO)) S1(division_grad_2d, quot({},2,false,true,UZ)) S1(division_inverse_grad_2d, quot({},1,true,true,UU,99,0)) S1(division_inverse_grad_z_2d, quot({},1,true,true,ZZ,0,99)) S1(division_shape_2d, quot({1},2,true,true,XX,0,0))
static void lsq(std::vector<int> xs,int steps,double ge,double gs,bool grad,Wrt w,int free=99,int zfree=99){ Th<2> q(xs,true,SIMP,false); parts(q); double a=sx::real("wa",-3,3),b=sx::real("wb",-3,3); As n(2); n[0]="e"; n[1]="s"; Ad v(2); v[0]=a; v[1]=b; Ad g(2); g[0]=ge; g[1]=gs; criterion(q.p,"l","Least Squares").set("Functions",n).set("Weights",v).set("Gold Values",g); auto k=by(q,"l",steps,free,zfree); if(!k.f) return; if(grad){ gradients<2>(q,k,w); return; }
  double ne=fabs(ge)>0.1?fabs(ge):1,ns=fabs(gs)>0.1?fabs(gs):1,de=(energyOf(q,k)-ge)/ne,ds=(meanOf(q,k)-gs)/ns; sx::eq("value",k.f->value(k.sol,q.z),a*de*de+b*ds*ds); }
S1(least_squares_2d, lsq({},2,sx::real("ge",0.25,4),sx::real("gs",-4,-0.25),false,NO)) S1(least_squares_small_gold_2d, lsq({},1,sx::real("ge",-0.0625,0.0625),sx::real("gs",0.25,2),false,NO)) S1(least_squares_grad_2d, lsq({},2,sx::real("ge",0.25,4),sx::real("gs",-4,-0.25),true,UZ)) S1(least_squares_shape_2d, lsq({1},2,sx::real("ge",0.25,4),sx::real("gs",-0.0625,0.0625),true,XX,2,0))
static void refuse(const char* type,int nf,int nw,int ng,bool bad){ Th<2> q({},false,SIMP,false); parts(q); As n(nf); for(int i=0;i<nf;i++) n[i]=i?"s":"e"; Ad v(nw),g(ng); for(int i=0;i<nw;i++) v[i]=1; for(int i=0;i<ng;i++) g[i]=1; auto& l=criterion(q.p,"l",type); l.set("Functions",n).set("Weights",v); if(ng>=0) l.set("Gold Values",g); q.model(); std::string nm="l"; Plato::Elliptic::ScalarFunctionBaseFactory<Ph> fac; sx::ok("refused",sx::throws([&](){ fac.create(*q.sm,q.dm,q.p,nm); })==bad); }
S1(unequal_lists, refuse("Weighted Sum",2,1,0,true); refuse("Weighted Sum",1,2,0,true); refuse("Weighted Sum",2,2,0,false); refuse("Least Squares",2,1,2,true); refuse("Least Squares",2,2,1,true); refuse("Least Squares",1,2,2,true); refuse("Least Squares",2,2,2,false))
S1(unknown_criterion, Th<2> q({},false,SIMP,false); criterion(q.p,"l","No Such"); q.model(); std::string nm="l"; Plato::Elliptic::ScalarFunctionBaseFactory<Ph> fac; bool none=false; bool th=sx::throws([&](){ none=fac.create(*q.sm,q.dm,q.p,nm)==nullptr; }); sx::ok("no_object",none||th))
