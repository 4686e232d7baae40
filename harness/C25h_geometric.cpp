// Geometric criteria (no analysis): volume, its combinations through the factory, and mass properties.
#include "sxmat.hpp"
#include "sxmass.hpp"
#include "Simplex.hpp"
#include "geometric/GeometricSimplexFadTypes.hpp"
// clang evaluates NumControls, which a bare Simplex does not have and nothing reads
namespace Plato { namespace Geometric { template<Plato::OrdinalType D> struct EvaluationTypes<Plato::Simplex<D>> { static constexpr int NumNodesPerCell=Plato::Simplex<D>::mNumNodesPerCell,NumControls=1,SpatialDim=Plato::Simplex<D>::mNumSpatialDims; }; } }
#include "Geometrical.hpp"
#include "geometric/ScalarFunctionBaseFactory.hpp"
#include "geometric/ScalarFunctionBaseFactory_def.hpp"
#include "geometric/WeightedSumFunction.hpp"
#include "geometric/DivisionFunction.hpp"
#include "geometric/LeastSquaresFunction.hpp"
#include "geometric/MassPropertiesFunction.hpp"
#include "geometric/GeometryScalarFunction.hpp"
#define S1(n,...) static void n(){ __VA_ARGS__; } SX_TSCENARIO(n,n)
typedef Plato::Geometric::ScalarFunctionBase FB;
template<int D> struct Geo { Msh<D> m; Teuchos::ParameterList p; Plato::DataMap dm; std::shared_ptr<Plato::SpatialModel> sm; Plato::ScalarVector z; Pen pen[2]; std::vector<int> xs; std::shared_ptr<FB> f;
  Geo(std::vector<int> xs_,bool two,const Pen& a,const Pen& b):m(xs_),pen{a,b},xs(xs_){ domains(p,two); for(int i=0;i<2;i++){ auto& l=at(p,i?"Criteria/b":"Criteria/a"); l.set("Type","Scalar Function").set("Scalar Function Type","Volume"); pen[i].put(l.sublist("Penalty Function")); } sm=std::make_shared<Plato::SpatialModel>(m.mesh,m.sets,p); z=vec("z",m.N,0.1,1); }
  bool make(std::string n){ Plato::Geometric::ScalarFunctionBaseFactory<Plato::Geometrical<D>> fac; f=fac.create(*sm,dm,p,n); sx::ok("known",f!=nullptr); return f!=nullptr; }
  double vol(int i){ double o=0; for(int c=0;c<m.NC;c++) o+=m.vol(c)*pen[i](cellMean<D>(m,c,z,1,0)); return o; }
  void grads(bool x){ double v=f->value(z); if(!x){ auto g=f->gradient_z(z); sx::ieq("z_size",g.size(),m.N); if((int)g.size()==m.N) for(int i=0;i<m.N;i++) sx::deriv(sx::nm("df_dz",i),g(i),v,z(i)); } else { auto g=f->gradient_x(z); sx::ieq("x_size",g.size(),m.N*D); if((int)g.size()==m.N*D) for(int n:xs) for(int d=0;d<D;d++) sx::deriv(sx::nm("df_dx",n*D+d),g(n*D+d),v,sx::real(sx::nm("x",n,d),-0.125,0.125)); } } };
template<int D> void volume(std::vector<int> xs,bool two,const Pen& pen,int grad){ Geo<D> q(xs,two,pen,SIMP); if(!q.make("a")) return; if(grad) q.grads(grad>1); else sx::eq("value",q.f->value(q.z),q.vol(0)); }
S1(volume_1d, volume<1>({1},true,SIMP,0)) S1(volume_2d, volume<2>({1},true,RAMP,0)) S1(volume_3d, volume<3>({3},true,SIMP,0)) S1(volume_grad_1d, volume<1>({},true,SIMP,1)) S1(volume_grad_2d, volume<2>({},true,RAMP,1)) S1(volume_grad_3d, volume<3>({},true,SIMP,1)) S1(volume_shape_1d, volume<1>({0,1},true,SIMP,2)) S1(volume_shape_2d, volume<2>({1},true,SIMP,2)) S1(volume_shape_3d, volume<3>({3},true,SIMP,2))
static void sum(std::vector<int> xs,int grad){ Geo<2> q(xs,true,SIMP,RAMP); double a=sx::real("wa",-3,3),b=sx::real("wb",-3,3); As n(2); n[0]="b"; n[1]="a"; Ad v(2); v[0]=b; v[1]=a; at(q.p,"Criteria/t").set("Type","Weighted Sum"); at(q.p,"Criteria/t").set("Functions",n).set("Weights",v); if(!q.make("t")) return; if(grad) q.grads(grad>1); else sx::eq("value",q.f->value(q.z),a*q.vol(0)+b*q.vol(1)); }
S1(geo_sum, sum({},0)) S1(geo_sum_grad, sum({},1)) S1(geo_sum_shape, sum({1},2))
static void quot(std::vector<int> xs,int grad){ Geo<2> q(xs,true,SIMP,RAMP); at(q.p,"Criteria/d").set("Type","Division").set("Numerator","a").set("Denominator","b"); if(!q.make("d")) return; if(grad) q.grads(grad>1); else sx::eq("value",q.f->value(q.z),q.vol(0)/q.vol(1)); }
S1(geo_division, quot({},0)) S1(geo_division_grad, quot({},1)) S1(geo_division_shape, quot({1},2))
static void lsq(std::vector<int> xs,double ga,double gb,int grad){ Geo<2> q(xs,true,SIMP,RAMP); double a=sx::real("wa",-3,3),b=sx::real("wb",-3,3); As n(2); n[0]="b"; n[1]="a"; Ad v(2); v[0]=b; v[1]=a; Ad g(2); g[0]=gb; g[1]=ga; at(q.p,"Criteria/l").set("Type","Least Squares"); at(q.p,"Criteria/l").set("Functions",n).set("Weights",v).set("Gold Values",g); if(!q.make("l")) return; if(grad){ q.grads(grad>1); return; } double na=fabs(ga)>0.1?fabs(ga):1,nb=fabs(gb)>0.1?fabs(gb):1,da=(q.vol(0)-ga)/na,db=(q.vol(1)-gb)/nb; sx::eq("value",q.f->value(q.z),a*da*da+b*db*db); }
S1(geo_least_squares, lsq({},sx::real("ga",0.25,4),sx::real("gb",-4,-0.25),0)) S1(geo_least_squares_small_gold, lsq({},sx::real("ga",-0.0625,0.0625),sx::real("gb",-4,-0.25),0)) S1(geo_least_squares_grad, lsq({},sx::real("ga",0.25,4),sx::real("gb",-4,-0.25),1)) S1(geo_least_squares_shape, lsq({1},sx::real("ga",0.25,4),sx::real("gb",-4,-0.25),2))
static void refuse(const char* type,int nf,int nw,int ng,bool bad){ Geo<2> q({},false,SIMP,RAMP); As n(nf); for(int i=0;i<nf;i++) n[i]=i?"b":"a"; Ad v(nw),g(ng); for(int i=0;i<nw;i++) v[i]=1; for(int i=0;i<ng;i++) g[i]=1; at(q.p,"Criteria/l").set("Type",type); at(q.p,"Criteria/l").set("Functions",n).set("Weights",v).set("Gold Values",g); sx::ok("refused",sx::throws([&](){ q.make("l"); })==bad); }
S1(geo_unequal_lists, refuse("Weighted Sum",2,1,0,true); refuse("Weighted Sum",1,2,0,true); refuse("Weighted Sum",2,2,0,false); refuse("Least Squares",2,1,2,true); refuse("Least Squares",2,2,1,true); refuse("Least Squares",2,2,2,false))
struct Geo3 { std::shared_ptr<FB> f; bool make(Mass& q,std::string n){ f=std::make_shared<Plato::Geometric::MassPropertiesFunction<Plato::Geometrical<3>>>(*q.sm,q.dm,q.p,n); return true; } double value(Mass& q){ return f->value(q.z); } Plato::ScalarVector gradz(Mass& q){ return f->gradient_z(q.z); } Plato::ScalarVector gradx(Mass& q){ return f->gradient_x(q.z); } void more(Mass&){} };
MASSES(Geo3,geo_)
