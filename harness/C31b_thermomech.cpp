// Transient thermomechanics end to end: one-way coupled, so the adjoint needs the transpose.
#include "sxtm.hpp"
#include "sxparab.hpp"
template<int D> struct Tt : Tm<D> { std::shared_ptr<Plato::Parabolic::VectorFunction<Plato::Thermomechanics<D>>> g;
  Tt(std::vector<int> xs,bool two,const Pen& pen,bool load=true):Tm<D>(xs,two,pen,false){ this->t="Parabolic"; pen.put(at(this->p,"Parabolic/Penalty Function")); this->ts=1; for(int i=0;i<2;i++){ std::string m=i?"Material Models/mB/":"Material Models/mA/"; at(this->p,(m+"Thermoelastic").c_str()).set("Temperature Scaling",1.0).set("Thermal Conductivity",1.0+i).set("Thermal Expansivity",0.25+i).set("Reference Temperature",0.5); at(this->p,(m+"Thermal Mass").c_str()).set("Mass Density",2.0+i).set("Specific Heat",1.5); } if(load){ this->traction("Mechanical Natural Boundary Conditions","f",D); this->flux("Thermal Natural Boundary Conditions","h"); } criterion(this->p,"e","Scalar Function","Internal Thermoelastic Energy",&pen); }
  void hot(){ at(this->p,"Computed Fields/T0").set("Function","2.0*x+1.0"); at(this->p,"Initial State/Temperature").set("Computed Field","T0"); }
  void start(){ this->model(); g=std::make_shared<Plato::Parabolic::VectorFunction<Plato::Thermomechanics<D>>>(*this->sm,this->dm,this->p,this->t); } };
template<int D> using P = Par<Plato::Thermomechanics<D>,D,Tt<D>>;
static std::vector<Fix> B1{{0,0,"b"},{0,1,"c"}}, C1{{0,0,"b"},{0,1,"c"},{2,0,0},{2,1,"d"}}, C2{{0,0,"b"},{0,1,0},{0,2,"c"},{3,0,0},{3,1,"d"},{3,2,0},{1,0,0},{1,1,0},{1,2,"g"}};
static double zero(int,int){ return 0; }
S1(coupled_march_1d, Tt<1> q({},true,SIMP); P<1> p(q,B1,{1},sx::real("dt",0.25,2),0.25,3); p.solved(zero))
S1(coupled_march_2d, Tt<2> q({},true,SIMP); P<2> p(q,C2,{0},0.5,0.25,3); p.solved(zero))
S1(coupled_initial_1d, Tt<1> q({1},true,SIMP); q.hot(); P<1> p(q,C1,{1},0.5,0.25,2); p.solved([&](int k,int i){ return k||i%2!=1?0.0:2*q.m.x[i/2][0]+1; }))
S1(coupled_initial_2d, Tt<2> q({},true,SIMP); q.hot(); P<2> p(q,C2,{0},0.5,0.25,2); p.solved([&](int k,int i){ return k||i%3!=2?0.0:2*q.m.x[i/3][0]+1; }))
S1(coupled_again_1d, Tt<1> q({},true,SIMP); P<1> p(q,B1,{1},0.5,0.25,3); p.again())
S1(coupled_grad_1d, Tt<1> q({},true,SIMP); P<1> p(q,C1,{1},0.5,0.25,3); p.gradZ("e"))
S1(coupled_grad_free_1d, Tt<1> q({},true,SIMP); P<1> p(q,B1,{1},0.5,0.25,2); p.gradZ("e"))
S1(coupled_grad_2d, Tt<2> q({},true,SIMP); P<2> p(q,C2,{0},0.5,0.25,2); p.gradZ("e"))
S1(coupled_shape_1d, Tt<1> q({1},true,SIMP,false); P<1> p(q,C1,{1},0.5,0.25,3); p.gradX("e"))
S1(coupled_shape_2d, Tt<2> q({2},true,SIMP,false); P<2> p(q,C2,{-1},0.5,0.25,2); p.gradX("e"))
