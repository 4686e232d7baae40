seed('S18_misfit_imag','C17',[('src/ComputeFrequencyResponseMisfit.hpp','Plato::OrdinalType tImagDofIndex = (mNumDofsPerNode * tNodeIndex) + SpaceDim + tDimIndex;','Plato::OrdinalType tImagDofIndex = (mNumDofsPerNode * tNodeIndex) + (mNumDofsPerNode - static_cast<Plato::OrdinalType>(1)) - tDimIndex % SpaceDim + static_cast<Plato::OrdinalType>(tNodeIndex > 0 && tDimIndex > 0 && tDimIndex + 1 < SpaceDim);')],
 'a three-dimensional cell whose imaginary displacement differs from the experiment','the middle imaginary component of every node after the first is skipped and the last one counted twice',
 '''#include "ComputeFrequencyResponseMisfit.hpp"
template<int D> static void one(){ const int K=2*D*(D+1); Plato::ScalarMultiVector e("e",1,K),u("u",1,K); Plato::ScalarVector o("o",1); double x=0; for(int i=0;i<K;i++){ u(0,i)=i*i+1; e(0,i)=2-i; double d=u(0,i)-e(0,i); x+=0.5*d*d; } Plato::ComputeFrequencyResponseMisfit<D> f; f(0,e,u,o); near("misfit",o(0)/x,1); }
static void run(){ one<1>(); one<2>(); one<3>(); }''')
seed('S19_flux_transpose','C18',[('src/ThermalFlux.hpp','tflux(cellOrdinal,iDim) -= tgrad(cellOrdinal,jDim)*mConductivityFunctor(cellT, iDim, jDim);','tflux(cellOrdinal,iDim) -= tgrad(cellOrdinal,jDim)*mConductivityFunctor(iDim <= jDim ? cellT : TScalarType(0.0), iDim, jDim);')],
 'an anisotropic conductivity whose off-diagonal entries depend on temperature, away from zero temperature','the lower off-diagonal conductivities are evaluated at zero temperature',
 '''#include "MaterialModel.hpp"
#include "ThermalConductivityMaterial.hpp"
#include "ThermalFlux.hpp"
static void run(){ Teuchos::ParameterList in("i"); auto& q=in.sublist("Material Models").sublist("M").sublist("Thermal Conduction"); q.set<bool>("Temperature Dependent",true); auto& t=q.sublist("Thermal Conductivity"); t.set<double>("c011",2.0); t.set<double>("c012",1.0); t.set<double>("c112",0.5); t.set<double>("c022",3.0); Plato::ThermalConductionModelFactory<2> f(in); auto m=f.create("M"); Plato::ThermalFlux<2> x(m); Plato::ScalarMultiVector g("g",1,2),o("o",1,2); Plato::ScalarVector T("T",1); g(0,0)=1; T(0)=4; x(0,o,g,T); near("q2",o(0,1),-3.0); near("q1",o(0,0),-2.0); }''',srcs=('src/MaterialModel.cpp',))
seed('S20_reference_norm','C19',[('src/NewtonRaphsonUtilities.hpp','''        aOutputData.mNormMeasure = std::abs(aOutputData.mReferenceNorm - aOutputData.mCurrentNorm);
        aOutputData.mReferenceNorm = aOutputData.mCurrentNorm;''','''        aOutputData.mNormMeasure = std::abs(aOutputData.mReferenceNorm - aOutputData.mCurrentNorm);
        aOutputData.mReferenceNorm = std::min(aOutputData.mReferenceNorm, aOutputData.mCurrentNorm);''')],
 'a residual norm that grows for one iteration and then an iteration more','the next measure compares with the smallest norm so far instead of the previous one, so a diverging solve can look converged',
 '''#include <fstream>
#include <iomanip>
#include <sstream>
#include <algorithm>
#include "BLAS1.hpp"
#include "NewtonRaphsonUtilities.hpp"
static void run(){ Plato::NewtonRaphsonOutputData d; double n[4]={1,5,1,3}, e[4]={0,4,4,2}; for(int i=0;i<4;i++){ d.mCurrentIteration=i; d.mCurrentNorm=n[i]; Plato::compute_absolute_residual_norm_error(d); if(i) near("measure",d.mNormMeasure,e[i]); } }''')
