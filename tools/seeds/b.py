seed('S08_pressure_offset','C07',[('src/PressureDivergence.hpp','tNodeIndex * NumDofsPerNode + tDimIndex + DofOffset;','tNodeIndex * (NumDofsPerNode - DofOffset) + tDimIndex + DofOffset;')],
 'a physics whose displacement degrees of freedom do not start at offset zero','the pressure divergence of every node but the first is added at the wrong degree of freedom',
 '''#include "PressureDivergence.hpp"
static void run(){ Plato::PressureDivergence<2,3,1> f; Plato::ScalarMultiVector o("o",1,9); Plato::ScalarVector p("p",1),v("v",1); Plato::ScalarArray3D g("g",1,3,2); p(0)=2; v(0)=0.5; for(int i=0;i<3;i++)for(int j=0;j<2;j++) g(0,i,j)=1+i+10*j; f(0,o,p,g,v); for(int i=0;i<3;i++)for(int j=0;j<2;j++) near("o",o(0,3*i+1+j),1+i+10*j); }''')
seed('S09_stabilization_scaling','C08',[('src/ComputeStabilization.hpp','* (mPressureScaling * aPressureGrad(aCellOrdinal, 1) - aProjectedPressureGrad(aCellOrdinal, 1));','* (mPressureScaling * aPressureGrad(aCellOrdinal, 1) - mPressureScaling * aProjectedPressureGrad(aCellOrdinal, 1));')],
 'a plane problem with a pressure scaling other than one','the projected pressure gradient is scaled twice in the second direction, so stabilization no longer vanishes where it should',
 '''#include "ComputeStabilization.hpp"
static void run(){ Plato::ComputeStabilization<2> f(3.0,0.5); Plato::ScalarVector v("v",1); v(0)=8; Plato::ScalarMultiVector g("g",1,2),p("p",1,2),o("o",1,2); g(0,0)=1; g(0,1)=2; p(0,0)=3; p(0,1)=5; f(0,v,g,p,o); near("s0",o(0,0),0); near("s1",o(0,1),3*4*(6-5)); }''')
seed('S10_scaled_reference','C09',[('src/ThermoPlasticityUtilities.hpp','''      tTemperature *= mTemperatureScaling;
''','''      tTemperature = (tTemperature - mReferenceTemperature) * mTemperatureScaling + mReferenceTemperature;
''')],
 'a three-dimensional thermo-plastic cell with a temperature scaling other than one and a nonzero reference temperature','only the temperature difference is scaled, so the thermal strain is wrong',
 '''#include "SimplexThermoPlasticity.hpp"
#include "ThermoPlasticityUtilities.hpp"
static void run(){ typedef Plato::SimplexThermoPlasticity<3> P; Plato::ThermoPlasticityUtilities<3,P> f(0.5,10.0,4.0); Plato::ScalarMultiVector l("l",1,14),u("u",1,20),t("t",1,6),e("e",1,6); Plato::ScalarVector b("b",4); for(int i=0;i<4;i++){ b(i)=0.25; u(0,5*i+3)=5; } f.computeElasticStrain(0,u,l,b,t,e); for(int i=0;i<3;i++) near("e",e(0,i),-0.5*(4*5-10)); }''')
seed('S11_tensile_trace','C10',[('src/TensileEnergyDensity.hpp','tStrainTrace += aPrincipalStrains(aCellOrdinal, tDim);','if (tDim < 1 || aPrincipalStrains(aCellOrdinal, tDim) + tStrainTrace >= 0.0) tStrainTrace += aPrincipalStrains(aCellOrdinal, tDim);')],
 'a strain state whose partial sums of principal strains change sign','compressive principal strains are left out of the trace, so compression creates tensile energy',
 '''#include "TensileEnergyDensity.hpp"
static void run(){ Plato::TensileEnergyDensity<3> f; Plato::ScalarMultiVector e("e",1,3); Plato::ScalarVector w("w",1); e(0,0)=1; e(0,1)=-3; e(0,2)=1; f(0,e,2.0,5.0,w); near("energy",w(0),10.0); }''',srcs=('src/TensileEnergyDensity.cpp',))
seed('S12_odd_exponent','C11',[('src/VectorPNorm.hpp','aPvalue / 2.0);','aPvalue / 2);')],
 'an odd p-norm exponent','integer division rounds the exponent down, so cells are integrated with p-1 and normalised with p',
 '''#include "PlatoStaticsTypes.hpp"
#include "VectorPNorm.hpp"
static void run(){ Plato::VectorPNorm<2> f; Plato::ScalarVector o("o",1),v("v",1); Plato::ScalarMultiVector a("a",1,2); a(0,0)=3; a(0,1)=4; v(0)=2; f(0,o,a,3,v); near("p=3",o(0),250); f(0,o,a,2,v); near("p=2",o(0),50); }''')
