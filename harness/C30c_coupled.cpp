// Steady thermoelasticity end to end: the stiffness is not symmetric, so the adjoint needs the transpose.
#include "sxprob.hpp"
#include "sxtm.hpp"
template<int D> struct Tq : Tm<D> { Tq(std::vector<int> xs,bool two,const Pen& pen,bool load=true):Tm<D>(xs,two,pen,false){ criterion(this->p,"e","Scalar Function","Internal Thermoelastic Energy",&pen); if(load) this->traction("Mechanical Natural Boundary Conditions","t",D); } };
template<int D> using TP = Prob<Plato::Thermomechanics<D>,D,Tq<D>>;
static std::vector<Fix> B1{{0,0,"b"},{0,1,"c"}}, B2{{0,0,"b"},{0,1,0},{0,2,"c"},{3,0,0},{3,1,"d"},{3,2,0},{1,0,0},{1,1,0},{1,2,"g"}};
S1(thermo_solve_1d, Tq<1> q({},true,SIMP); TP<1> p(q,B1,{0,1,2}); p.solved())
S1(thermo_grad_1d, Tq<1> q({},true,SIMP); TP<1> p(q,B1,{0,1,2}); p.gradZ("e"))
S1(thermo_shape_1d, Tq<1> q({1},true,SIMP,false); TP<1> p(q,{{0,0,"b"},{0,1,"c"},{2,1,0}},{1}); p.gradX("e"))
S1(thermo_solve_2d, Tq<2> q({},true,SIMP); TP<2> p(q,B2,{0,1,2,3}); p.solved())
S1(thermo_grad_2d, Tq<2> q({},true,SIMP); TP<2> p(q,B2,{0}); p.gradZ("e")) S1(thermo_grad1_2d, Tq<2> q({},true,SIMP); TP<2> p(q,B2,{1,2}); p.gradZ("e"))
S1(thermo_shape_2d, Tq<2> q({2},false,SIMP,false); TP<2> p(q,B2,{}); p.gradX("e"))
