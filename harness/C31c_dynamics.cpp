// Structural dynamics end to end.
#include "sxtrans.hpp"
#include "hyperbolic/HyperbolicVectorFunction.hpp"
#include "hyperbolic/HyperbolicPhysicsScalarFunction.hpp"
#include "hyperbolic/HyperbolicMechanics.hpp"
#include "hyperbolic/HyperbolicProblem.hpp"
template<class P> std::shared_ptr<Plato::Hyperbolic::ScalarFunctionBase> Plato::Hyperbolic::ScalarFunctionFactory<P>::create(Plato::SpatialModel& m,Plato::DataMap& d,Teuchos::ParameterList& p,std::string& n){ return std::make_shared<Plato::Hyperbolic::PhysicsScalarFunction<P>>(m,d,p,n); }
template<int D> struct Dy : Ell<Plato::Hyperbolic::Mechanics,D> { std::shared_ptr<Plato::Hyperbolic::VectorFunction<Plato::Hyperbolic::Mechanics<D>>> g;
  Dy(std::vector<int> xs,bool two,const Pen& pen,bool damp,bool load=true):Ell<Plato::Hyperbolic::Mechanics,D>(xs,two,pen,D){ this->t="Hyperbolic"; pen.put(at(this->p,"Hyperbolic/Penalty Function")); elasticMaterials(this->p); for(int i=0;i<2;i++){ auto& l=at(this->p,i?"Material Models/mB/Isotropic Linear Elastic":"Material Models/mA/Isotropic Linear Elastic"); l.set("Mass Density",1.5+i); if(damp) l.set("RayleighA",0.25).set("RayleighB",0.5); } if(load) this->traction("Natural Boundary Conditions","f",D); criterion(this->p,"e","Scalar Function","Internal Elastic Energy",&pen); }
  void moving(){ at(this->p,"Computed Fields/a").set("Function","2.0*x+1.0"); at(this->p,"Computed Fields/b").set("Function","x-0.5"); at(this->p,"Initial State/Displacement X").set("Computed Field","a"); at(this->p,"Initial State/Velocity X").set("Computed Field","b"); }
  void start(){ this->model(); g=std::make_shared<Plato::Hyperbolic::VectorFunction<Plato::Hyperbolic::Mechanics<D>>>(*this->sm,this->dm,this->p,this->t); } };
template<int D> struct H : Trans<Plato::HyperbolicProblem<Plato::Hyperbolic::Mechanics<D>>,3,D,Dy<D>> { typedef Trans<Plato::HyperbolicProblem<Plato::Hyperbolic::Mechanics<D>>,3,D,Dy<D>> B; double be,ga;
  H(Dy<D>& q,std::vector<Fix> f,std::vector<int> zs,double dt,double be_,double ga_,int steps):B((at(q.p,"Time Integration").set("Newmark Beta",be_).set("Newmark Gamma",ga_),q),f,zs,dt,steps),be(be_),ga(ga_){}
  template<class I> void solved(I init){ auto& q=this->q; q.start(); this->marched([&](int n){ return q.g->value(this->at_(0,n),this->at_(1,n),this->at_(2,n),this->z,this->dt,n*this->dt); },init); double dt=this->dt; for(int n=1;n<this->steps;n++) for(int i=0;i<this->R;i++){ auto y=[&](int k,int m){ return this->y(k,m,i); }; sx::eq(sx::nm("newmark_u",n,i),y(0,n),y(0,n-1)+dt*y(1,n-1)+dt*dt*((0.5-be)*y(2,n-1)+be*y(2,n))); sx::eq(sx::nm("newmark_v",n,i),y(1,n),y(1,n-1)+dt*((1-ga)*y(2,n-1)+ga*y(2,n))); } } };
static std::vector<Fix> B1{{0,0,"b"}}, C1{{0,0,"b"},{2,0,"c"}}, Z1{{0,0,0}}, C2{{0,0,"b"},{0,1,0},{1,0,0},{1,1,"c"},{3,0,0},{3,1,"d"}};
static double zero(int,int){ return 0; }
S1(dyn_march_1d, Dy<1> q({},true,SIMP,true); H<1> p(q,B1,{1},sx::real("dt",0.25,2),0.25,0.75,3); p.solved(zero))
S1(dyn_newmark_1d, Dy<1> q({},true,SIMP,false); H<1> p(q,C1,{1},0.5,sx::real("be",0.125,1),sx::real("ga",0.25,1),3); p.solved(zero))
S1(dyn_march_2d, Dy<2> q({},true,SIMP,true); H<2> p(q,C2,{0},0.5,0.25,0.75,3); p.solved(zero))
S1(dyn_initial_1d, Dy<1> q({1},true,SIMP,false); q.moving(); H<1> p(q,C1,{1},0.5,0.25,0.75,2); p.solved([&](int k,int i){ return k==0?2*q.m.x[i][0]+1:k==1?q.m.x[i][0]-0.5:0.0; }))
S1(dyn_initial_2d, Dy<2> q({},true,SIMP,false); q.moving(); H<2> p(q,C2,{0},0.5,0.25,0.75,2); p.solved([&](int k,int i){ return i%2||k==2?0.0:k==0?2*q.m.x[i/2][0]+1:q.m.x[i/2][0]-0.5; }))
S1(dyn_again_1d, Dy<1> q({},true,SIMP,true); q.moving(); H<1> p(q,B1,{1},0.5,0.25,0.75,3); p.again())
S1(dyn_grad_zero_1d, Dy<1> q({},true,SIMP,true); H<1> p(q,Z1,{1},0.5,0.25,0.75,3); p.gradZ("e"))
S1(dyn_grad_1d, Dy<1> q({},true,SIMP,true); H<1> p(q,B1,{1},0.5,0.25,0.75,2); p.gradZ("e"))
S1(dyn_grad3_1d, Dy<1> q({},true,SIMP,true); H<1> p(q,C1,{1},0.5,0.25,0.75,4); p.gradZ("e"))
S1(dyn_grad_2d, Dy<2> q({},true,SIMP,true); H<2> p(q,C2,{0},0.5,0.25,0.75,3); p.gradZ("e"))
S1(dyn_shape_1d, Dy<1> q({1},true,SIMP,true,false); H<1> p(q,C1,{},0.5,0.25,0.75,3); p.gradX("e"))
S1(dyn_shape_2d, Dy<2> q({2},true,SIMP,true,false); H<2> p(q,C2,{-1},0.5,0.25,0.75,2); p.gradX("e"))
// conditions and loads that follow time
static std::vector<Fix> T1{{0,0,"=2.0*t+1.0"}}, T2{{0,0,"=2.0*t+1.0"},{0,1,0},{1,0,0},{1,1,"c"},{3,0,0},{3,1,0}};
template<int D> void ramp(Dy<D>& q){ Teuchos::Array<std::string> v(D); for(int i=0;i<D;i++) v[i]=i?"t-2.0":"3.0*t+1.0"; q.m.sideset("s",{{0,D==1?0:2}}); at(q.p,"Natural Boundary Conditions/f").set("Type","Uniform").set("Sides","s").set("Values",v); }
S1(dyn_timed_1d, Dy<1> q({},true,SIMP,true,false); ramp<1>(q); H<1> p(q,T1,{1},0.5,0.25,0.75,3); p.solved(zero))
S1(dyn_timed_2d, Dy<2> q({},true,SIMP,true,false); ramp<2>(q); H<2> p(q,T2,{0},0.5,0.25,0.75,3); p.solved(zero))
S1(dyn_timed_grad_1d, Dy<1> q({},true,SIMP,true,false); ramp<1>(q); H<1> p(q,T1,{1},0.5,0.25,0.75,3); p.gradZ("e"))
S1(dyn_timed_shape_2d, Dy<2> q({2},true,SIMP,false,false); ramp<2>(q); H<2> p(q,T2,{-1},0.5,0.25,0.75,3); p.gradX("e"))
