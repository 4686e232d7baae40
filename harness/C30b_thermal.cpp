// Steady heat conduction end to end; a conductivity that depends on temperature makes the problem nonlinear.
#include "sxprob.hpp"
#include "sxth.hpp"
template<int D> struct Tq : Th<D> { Tq(std::vector<int> xs,bool two,const Pen& pen,bool load=true):Th<D>(xs,two,pen,false){ criterion(this->p,"e","Scalar Function","Internal Thermal Energy",&pen); if(load) this->flux("Natural Boundary Conditions","q"); } };
template<int D> using TP = Prob<Plato::Thermal<D>,D,Tq<D>>;
static std::vector<Fix> B1{{0,0,"b"}}, B2{{0,0,"b"},{3,0,"c"}}, Z2{{0,0,0},{3,0,0}};
S1(heat_solve_1d, Tq<1> q({},true,RAMP); TP<1> p(q,B1,{0,1,2}); p.solved())
S1(heat_grad_1d, Tq<1> q({},true,RAMP); TP<1> p(q,B1,{0,1,2}); p.gradZ("e"))
S1(heat_shape_1d, Tq<1> q({0,1},true,RAMP,false); TP<1> p(q,{{0,0,"b"},{2,0,"c"}},{1}); p.gradX("e"))
S1(heat_solve_2d, Tq<2> q({},true,SIMP); TP<2> p(q,B2,{0,1,2,3}); p.solved())
S1(heat_grad_2d, Tq<2> q({},true,SIMP); TP<2> p(q,B2,{1,2}); p.gradZ("e"))
S1(heat_shape_2d, Tq<2> q({2},false,SIMP,false); TP<2> p(q,B2,{0}); p.gradX("e"))
S1(heat_self_adjoint_2d, Tq<2> q({},true,SIMP); q.p.set("Self-Adjoint",true); TP<2> p(q,Z2,{0,2}); p.gradZ("e"))
