seed('S26_principal_axes','C25',[('src/elliptic/MassPropertiesFunction.hpp','''            aInertiaWeights[4] =  Q11*Q33 + Q13*Q31;''','''            aInertiaWeights[4] =  Q11*Q33 + Q13*Q33;''')],
 'all ten mass properties asked for, and a goal whose principal axes are not the coordinate axes','the off-diagonal inertia in the goal\'s axes is wrong: a design that meets the goal exactly has a positive misfit',
 '''#include "sxth.hpp"
#include "sxmass.hpp"
#include "elliptic/MassPropertiesFunction.hpp"
'''+open('/verif/harness/C25g_mass.cpp').read().split('MassPropertiesFunction.hpp"\n')[1].split('MASSES')[0]+'''
static void run(){ for(int i=4;i<10;i++) allTen<Ell3>(i,0); }
''',mesh=True)
seed('S27_least_squares_scale','C25',[('src/elliptic/LeastSquaresFunction.hpp','''                                            * tFunctionGradU(tDof) / (tFunctionScale * tFunctionScale);''','''                                            * tFunctionGradU(tDof) / tFunctionScale;''')],
 'a least-squares criterion with a goal value other than one whose parts depend on the state','the state gradient, hence the adjoint and the total derivative, is scaled wrongly',
 '''#include "sxth.hpp"
#include "elliptic/LeastSquaresFunction.hpp"
struct Part : Plato::Elliptic::ScalarFunctionBase { Plato::ScalarVector g; double v; Part(int n,double v_):g("g",n),v(v_){ for(int i=0;i<n;i++) g(i)=1+i; } std::string name() const override { return "part"; } void updateProblem(const Plato::ScalarVector&,const Plato::ScalarVector&) const override {} double value(const Plato::Solution&,const Plato::ScalarVector&,double) const override { return v; } Plato::ScalarVector gradient_u(const Plato::Solution&,const Plato::ScalarVector&,Plato::OrdinalType,double) const override { return g; } Plato::ScalarVector gradient_z(const Plato::Solution&,const Plato::ScalarVector&,double) const override { return g; } Plato::ScalarVector gradient_x(const Plato::Solution&,const Plato::ScalarVector&,double) const override { return g; } };
static void run(){ Th<2> q({},false,SIMP,false); q.model(); Plato::Elliptic::LeastSquaresFunction<Plato::Thermal<2>> f(*q.sm,q.dm); f.allocateScalarFunctionBase(std::make_shared<Part>(q.m.N,7.0)); f.appendFunctionWeight(3.0); f.appendGoldFunctionValue(4.0); Plato::ScalarMultiVector S("S",1,q.m.N); Plato::Solution s(S); double v=f.value(s,q.z); near("value",v,3*9.0/16,1e-9); auto g=f.gradient_u(s,q.z,0); for(int i=0;i<q.m.N;i++) near("gradient",g(i),3*2*3*(1.0+i)/16,1e-9); }
''',mesh=True)
