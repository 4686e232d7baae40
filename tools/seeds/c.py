seed('S13_tet_weight','C12',[('src/alg/Cubature.cpp','        pointsHost(4, 0) = 1. / 2.;\n','        pointsHost(4, 0) = 1. / 3.;\n')],
 'a three-dimensional degree-3 rule and an integrand that varies in the first direction','one cubature point of the five-point rule is misplaced, so cubic (even linear) integrands are wrong while the weights still sum to the volume',
 '''#include "alg/Cubature.hpp"
static void run(){ int n=Plato::Cubature::getNumCubaturePoints(3,3); Kokkos::View<double**,Plato::Layout,Plato::MemSpace> p("p",n,3); Kokkos::View<double*,Plato::MemSpace> w("w",n); Plato::Cubature::getCubature(3,3,p,w); for(int j=0;j<3;j++){ double q=0,s=0; for(int i=0;i<n;i++){ s+=w(i)*p(i,j); q+=w(i)*p(i,j)*p(i,j)*p(i,j); } near("x",s,1./24); near("x3",q,1./120); } }''',srcs=('src/alg/Cubature.cpp',))
seed('S14_newmark_gradient','C13',[('src/hyperbolic/Newmark.hpp','return (mGamma/(2.0*mBeta) - 1.0) * aTimeStep;','return mGamma*(1.0/(2.0*mBeta) - 1.0) * aTimeStep;')],
 'an adjoint solve with gamma other than one','the derivative of the velocity residual with respect to the previous acceleration is not the derivative of the residual',
 '''#include <Teuchos_ParameterList.hpp>
#include "hyperbolic/Newmark.hpp"
static void run(){ Teuchos::ParameterList q("q"); q.set<double>("Newmark Gamma",0.5); q.set<double>("Newmark Beta",0.25); Plato::NewmarkIntegrator<int> f(q); Plato::ScalarVector z("z",1),a("a",1); a(0)=1; double dt=0.125; near("dv/da_prev",f.v_value(z,z,z,z,z,a,dt)(0)-f.v_value(z,z,z,z,z,z,dt)(0),f.v_grad_a_prev(dt)); }''')
seed('S15_rocket_step','C14',[('src/Plato_AlgebraicRocketModel.hpp','mImmersedGeomModel->evolveGeometry(mDeltaTime, tBurnRateMultiplier);','mImmersedGeomModel->evolveGeometry(std::min(mDeltaTime, mTotalBurnTime - tTime), tBurnRateMultiplier);')],
 'a burn time that is not a multiple of the time step','the last step burns back less propellant than the step that is recorded',
 '''#include <memory>
#include "Plato_GeometryModel.hpp"
#include "Plato_Cylinder.hpp"
#include "Plato_AlgebraicRocketModel.hpp"
static void run(){ auto c=std::make_shared<Plato::Cylinder>(); Plato::ProblemParams p; p.mGeometry={1,2,0.5}; p.mRefBurnRate={0.125,0}; p.mPropellantDensity=1; c->initialize(p); Plato::AlgebraicRocketInputs in; in.mAlpha=0; in.mRefPressure=1; in.mDeltaTime=1; in.mTotalBurnTime=2.5; Plato::AlgebraicRocketModel k(in,c); k.disableOutput(); k.solve(); near("radius",c->radius(),0.5+3*0.125); }''')
seed('S16_tensor_default','C15',[('src/MaterialModel.cpp','c1[2][2] = Plato::ParseTools::getParam<T>(aParams, "c133", /*default=*/ c1[0][0]);','c1[2][2] = Plato::ParseTools::getParam<T>(aParams, "c133", /*default=*/ aParams.isType<T>("c033") ? 0.0 : c1[0][0]);')],
 'an orthotropic temperature-dependent tensor that gives its own c033 but no c133','the linear temperature coefficient of the third direction is silently zero instead of the documented default',
 '''#include "MaterialModel.hpp"
static void run(){ Teuchos::ParameterList q("q"); q.set<double>("c011",2.0); q.set<double>("c111",3.0); q.set<double>("c033",5.0); Plato::TensorFunctor<3> f(q); near("33",f(2.0,2,2),5.0+6.0); near("22",f(2.0,1,1),2.0+6.0); }''',srcs=('src/MaterialModel.cpp',))

seed('S17_divide','C16',[('src/ExpressionEvaluator.cpp','node.ID = DIVISION;        node.precedence = 3;  info = LeftAssociative;','node.ID = DIVISION;        node.precedence = 3;  info = RightAssociative;')],
 'an expression with a division directly after another product or division','a/b/c and a*b/c... are grouped from the right, so a/b/c becomes a/(b/c)',
 '''#include "ExpressionEvaluator.hpp"
static double ev(const char* s){ Teuchos::ParameterList p("p"); p.set<double>("E",12.0); p.set<double>("v",2.0); Plato::ExpressionEvaluator e(p); e.parse_expression(s); e.validate_expression(); return e.evaluate_expression(); }
static void run(){ near("plain",ev("E/v"),6); near("chain",ev("E/v/3"),2); near("mixed",ev("E*v/3"),8); near("div mult",ev("E/v*3"),18); }''',srcs=('src/ExpressionEvaluator.cpp',))
