
def H(n): return '#define SXNO(...)\n'+open('/verif/harness/'+n).read().replace('S1(','SXNO(')
# central difference of the criterion value in one named input, against the returned gradient
FD=r"""
template<class Mk,class Gr> static void fd(const char* w,const char* in,Mk value,Gr grad,double h=1e-4){ double c=sx::over()[in],lo,hi,g=grad(); sx::over()[in]=c-h; lo=value(); sx::over()[in]=c+h; hi=value(); sx::over()[in]=c; near(w,g,(hi-lo)/(2*h),1e-4); }
"""
seed('S36_adjoint_transpose','C30',[('src/elliptic/Problem.hpp',"""            mJacobian = mPDE->gradient_u_T(tStatesSubView, aControl);""","""            mJacobian = mPDE->gradient_u(tStatesSubView, aControl);""",0)],
 'a coupled steady problem (thermomechanics, electromechanics) whose Jacobian is not symmetric','control gradients of coupled problems are not the derivative of the criterion',
 H('C30c_coupled.cpp')+FD+"""static void run(){ sx::over()["z1"]=0.5; auto v=[]{ Tq<1> q({},true,SIMP); TP<1> p(q,B1,{1}); return p.p->criterionValue(p.z,p.s,"e"); }; auto g=[]{ Tq<1> q({},true,SIMP); TP<1> p(q,B1,{1}); return p.p->criterionGradient(p.z,p.s,"e")(1); }; fd("de/dz1","z1",v,g); }
""",mesh=True)
seed('S37_newton_constraint_scale','C30',[('src/elliptic/Problem.hpp',"""            Plato::OrdinalType tScale = (tNewtonIndex == 0) ? 1.0 : 0.0;""","""            Plato::OrdinalType tScale = (tNewtonIndex < 2) ? 1.0 : 0.0;""")],
 'more than one Newton iteration and a nonzero prescribed value','the second Newton iteration adds the prescribed values once more',
 H('C30a_mechanics.cpp')+"""static void run(){ sx::over()["b"]=0.75; Me<1> q({},true,SIMP); at(q.p,"Newton Iteration").set("Maximum Iterations",3); MP<1> p(q,B1,{0,1,2}); near("prescribed value",p.s.State(0,0),0.75); }
""",mesh=True)
seed('S38_shape_history_acceleration','C31',[('src/hyperbolic/HyperbolicProblem.hpp',"""                    Plato::blas1::axpy(tR_va_prev, tAdjoint_V_next, t_dFda);""","""                    Plato::blas1::axpy(tR_va_prev, tAdjoint_A_next, t_dFda);""",1)],
 'the shape gradient of a dynamics problem with at least three steps','shape gradients of structural dynamics carry the wrong multiplier back through the acceleration',
 H('C31c_dynamics.cpp')+FD+"""static void run(){ sx::over()["x1_0"]=0.05; auto v=[]{ Dy<1> q({1},true,SIMP,true,false); H<1> p(q,C1,{},0.5,0.25,0.75,4); return p.p->criterionValue(p.z,p.s,"e"); }; auto g=[]{ Dy<1> q({1},true,SIMP,true,false); H<1> p(q,C1,{},0.5,0.25,0.75,4); return p.p->criterionGradientX(p.z,p.s,"e")(1); }; fd("de/dx1","x1_0",v,g); }
""",mesh=True)
seed('S39_heat_rate_history','C31',[('src/parabolic/Problem.hpp',"""                    Plato::blas1::axpy(tR_vv_prev, tAdjoint_V_next, t_dFdv);
""","""                    Plato::blas1::axpy(tR_vv_prev, tAdjoint_V_next, t_dFdu);
""",0)],
 'the control gradient of a transient heat problem with at least three stored steps','the rate part of the history is added to the state part of the adjoint right-hand side',
 H('C31a_heat.cpp')+FD+"""static void run(){ sx::over()["z1"]=0.5; auto v=[]{ Ht<1> q({},true,RAMP,true); P<1> p(q,B1,{1},0.5,0.25,3); return p.p->criterionValue(p.z,p.s,"e"); }; auto g=[]{ Ht<1> q({},true,RAMP,true); P<1> p(q,B1,{1},0.5,0.25,3); return p.p->criterionGradient(p.z,p.s,"e")(1); }; fd("de/dz1","z1",v,g); }
""",mesh=True)
