// Steady piezoelectricity end to end.
#include "sxprob.hpp"
#include "sxem.hpp"
template<int D> struct Eq : Emx<D> { Eq(std::vector<int> xs,bool two,const Pen& pen,bool load=true):Emx<D>(xs,two,pen){ criterion(this->p,"e","Scalar Function","Internal Electroelastic Energy",&pen); if(load) this->traction("Mechanical Natural Boundary Conditions","t",D); } };
template<int D> using EP = Prob<Plato::Electromechanics<D>,D,Eq<D>>;
static std::vector<Fix> B2{{0,0,"b"},{0,1,0},{0,2,"c"},{3,0,0},{3,1,"d"},{3,2,0},{1,0,0},{1,1,0},{1,2,0}};
S1(piezo_solve_2d, Eq<2> q({},true,SIMP); EP<2> p(q,B2,{0,1,2,3}); p.solved())
static std::vector<Fix> C2{{0,0,0},{0,1,0},{0,2,"c"},{3,0,0},{3,1,0},{3,2,0},{1,0,0},{1,1,0},{1,2,0}};
S1(piezo_grad_2d, Eq<2> q({},true,SIMP,false); EP<2> p(q,C2,{0}); p.gradZ("e"))
