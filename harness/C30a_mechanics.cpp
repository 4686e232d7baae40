// Steady structural problems end to end: the solution balances, and criterion gradients are total derivatives through the solution.
#include "sxprob.hpp"
#include "Mechanics.hpp"
template<int D> struct Me : Ell<Plato::Mechanics,D> { Me(std::vector<int> xs,bool two,const Pen& pen,bool load=true):Ell<Plato::Mechanics,D>(xs,two,pen,D){ elasticMaterials(this->p); criterion(this->p,"e","Scalar Function","Internal Elastic Energy",&pen); criterion(this->p,"v","Scalar Function","Volume",&pen).set("Linear",true); if(load) this->traction("Natural Boundary Conditions","t",D); } };
template<int D> using MP = Prob<Plato::Mechanics<D>,D,Me<D>>;
static std::vector<Fix> B1{{0,0,"b"}}, B2{{0,0,"b"},{0,1,0},{3,0,"c"},{3,1,"d"}}, F2{{0,0,"b"},{0,1,0},{1,0,0},{1,1,"c"},{3,0,0},{3,1,"d"}}, Z3{{0,0,0},{0,1,0},{1,0,0},{1,1,0},{3,0,0},{3,1,0}}, Z2{{0,0,0},{0,1,0},{3,0,0},{3,1,0}};
S1(solve_1d, Me<1> q({},true,SIMP); MP<1> p(q,B1,{0,1,2}); p.solved())
S1(grad_1d, Me<1> q({},true,SIMP); MP<1> p(q,B1,{0,1,2}); p.gradZ("e"))
S1(shape_1d, Me<1> q({1},true,SIMP); MP<1> p(q,B1,{1}); p.gradX("e"))
S1(solve_2d, Me<2> q({},true,SIMP); MP<2> p(q,B2,{0}); p.solved())
S1(solve_one_domain_2d, Me<2> q({},false,RAMP); MP<2> p(q,B2,{0,3}); p.solved())
S1(grad_2d, Me<2> q({},true,SIMP); MP<2> p(q,B2,{0}); p.gradZ("e")) S1(grad1_2d, Me<2> q({},true,SIMP); MP<2> p(q,B2,{1,2}); p.gradZ("e"))
S1(grad2_2d, Me<2> q({},false,RAMP); MP<2> p(q,B2,{2,3}); p.gradZ("e"))
S1(shape_2d, Me<2> q({2},true,SIMP,false); MP<2> p(q,F2,{}); p.gradX("e"))
S1(shape_fixed_2d, Me<2> q({0},false,RAMP,false); MP<2> p(q,F2,{}); p.gradX("e"))
S1(linear_2d, Me<2> q({2},true,SIMP); MP<2> p(q,B2,{0,1,2,3}); sx::ok("is_linear",p.p->criterionIsLinear("v")&&!p.p->criterionIsLinear("e")); p.gradZ("v"); p.gradX("v"))
// with zero prescribed values the elastic energy is self-adjoint: the short cut gives the same gradients
S1(self_adjoint_2d, Me<2> q({},true,SIMP); q.p.set("Self-Adjoint",true); MP<2> p(q,Z2,{0}); p.gradZ("e"))
S1(self_adjoint_shape_2d, Me<2> q({0},true,SIMP); q.m.sideset("s",{{0,2}}); q.p.set("Self-Adjoint",true); MP<2> p(q,Z3,{}); p.gradX("e"))
// a second solve with other densities does not depend on the first
S1(resolve_2d, Me<2> q({},true,SIMP); MP<2> p(q,B2,{0}); auto s=p.s; std::vector<double> a; for(int i=0;i<8;i++) a.push_back(s.State(0,i)); p.gradZ("e"); auto z=p.z; Plato::ScalarVector z2("z2",4); for(int i=0;i<4;i++) z2(i)=sx::real(sx::nm("y",i),0.1,1); p.p->solution(z2); auto t=p.p->solution(z); for(int i=0;i<8;i++) sx::eq(sx::nm("u",i),t.State(0,i),a[i]))
S1(unknown, Me<1> q({},true,SIMP); MP<1> p(q,B1,{0}); sx::ok("value",sx::throws([&]{ p.p->criterionValue(p.z,"zz"); })); sx::ok("gradient",sx::throws([&]{ p.p->criterionGradient(p.z,"zz"); })); sx::ok("gradient_x",sx::throws([&]{ p.p->criterionGradientX(p.z,"zz"); })))
// further Newton iterations of a linear problem change nothing: prescribed values enter once
S1(newton_1d, Me<1> q({},true,SIMP); at(q.p,"Newton Iteration").set("Maximum Iterations",3); MP<1> p(q,B1,{0,1,2}); p.solved()) S1(newton_2d, Me<2> q({},true,SIMP); at(q.p,"Newton Iteration").set("Maximum Iterations",2); MP<2> p(q,B2,{0}); p.solved())
