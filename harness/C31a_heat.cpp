// Transient heat conduction end to end.
#include "sxth.hpp"
#include "sxparab.hpp"
template<int D> struct Ht : Th<D> { std::shared_ptr<Plato::Parabolic::VectorFunction<Plato::Thermal<D>>> g;
  // plain: material values fixed, so that the derivatives stay small
  Ht(std::vector<int> xs,bool two,const Pen& pen,bool plain,bool load=true):Th<D>(xs,two,pen,false){ this->t="Parabolic"; pen.put(at(this->p,"Parabolic/Penalty Function")); for(int i=0;i<2;i++){ std::string m=i?"Material Models/mB/":"Material Models/mA/"; at(this->p,(m+"Thermal Mass").c_str()).set("Mass Density",plain?2.0+i:sx::real(sx::nm("rho",i),0.5,4)).set("Specific Heat",1.5); if(plain) at(this->p,(m+"Thermal Conduction").c_str()).set("Thermal Conductivity",1.0+i); } if(load) this->flux("Natural Boundary Conditions","h"); criterion(this->p,"e","Scalar Function","Internal Thermal Energy",&pen); criterion(this->p,"v","Scalar Function","Volume",&pen).set("Linear",true); }
  void hot(){ at(this->p,"Computed Fields/T0").set("Function","2.0*x+1.0"); at(this->p,"Initial State/Temperature").set("Computed Field","T0"); }
  void start(){ this->model(); g=std::make_shared<Plato::Parabolic::VectorFunction<Plato::Thermal<D>>>(*this->sm,this->dm,this->p,this->t); } };
template<int D> using P = Par<Plato::Thermal<D>,D,Ht<D>>;
static std::vector<Fix> B1{{0,0,"b"}}, C1{{0,0,"b"},{2,0,"c"}}, B2{{0,0,"b"},{3,0,"c"}}, C2{{0,0,"b"},{3,0,"c"},{1,0,0}}, Z1{{0,0,0}};
static double zero(int,int){ return 0; }
S1(heat_march_1d, Ht<1> q({},true,RAMP,false); P<1> p(q,B1,{0,1,2},sx::real("dt",0.25,2),sx::real("al",0.25,1),2); p.solved(zero))
S1(heat_march3_1d, Ht<1> q({},true,RAMP,true); P<1> p(q,B1,{1},sx::real("dt",0.25,2),0.25,4); p.solved(zero))
S1(heat_initial_1d, Ht<1> q({1},true,RAMP,true); q.hot(); P<1> p(q,B1,{1},0.5,0.25,3); p.solved([&](int k,int i){ return k?0.0:2*q.m.x[i][0]+1; }))
S1(heat_march_2d, Ht<2> q({},true,SIMP,true); P<2> p(q,B2,{0,2},sx::real("dt",0.25,2),0.25,3); p.solved(zero))
S1(heat_again_1d, Ht<1> q({},true,RAMP,true); q.hot(); P<1> p(q,B1,{1},0.5,0.25,3); p.again())
S1(heat_grad_1d, Ht<1> q({},true,RAMP,true); P<1> p(q,B1,{1},0.5,0.25,2); p.gradZ("e"))
S1(heat_grad3_1d, Ht<1> q({},true,RAMP,true); P<1> p(q,B1,{1},0.5,0.25,3); p.gradZ("e"))
S1(heat_grad_zero_1d, Ht<1> q({},true,RAMP,true); P<1> p(q,Z1,{1},0.5,0.25,4); p.gradZ("e"))
S1(heat_shape_1d, Ht<1> q({1},true,RAMP,true,false); P<1> p(q,C1,{},0.5,0.25,3); p.gradX("e"))
S1(heat_grad_2d, Ht<2> q({},true,SIMP,true); P<2> p(q,C2,{0},0.5,0.25,3); p.gradZ("e"))
S1(heat_shape_2d, Ht<2> q({2},false,SIMP,true,false); P<2> p(q,C2,{-1},0.5,0.25,3); p.gradX("e"))
S1(heat_linear_2d, Ht<2> q({2},true,SIMP,true); P<2> p(q,C2,{0,1},0.5,0.25,2); p.gradZ("v"); p.gradX("v"))
S1(heat_again_2d, Ht<2> q({},true,SIMP,true); P<2> p(q,C2,{0},0.5,0.25,3); p.again())
// an initial value for an unknown is refused rather than written elsewhere
S1(heat_initial_unknown, Ht<1> q({},true,RAMP,true); at(q.p,"Computed Fields/T0").set("Function","2.0*x+1.0"); at(q.p,"Initial State/Pressure").set("Computed Field","T0"); sx::ok("refused",sx::throws([&]{ P<1> p(q,B1,{1},0.5,0.25,2); })))
S1(heat_newton_1d, Ht<1> q({},true,RAMP,true); at(q.p,"Newton Iteration").set("Maximum Iterations",2); P<1> p(q,B1,{1},0.5,0.25,3); p.solved(zero))
