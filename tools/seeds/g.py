DYN=open('/verif/harness/C26c_dynamics.cpp').read().split('S1(value_1d')[0]
seed('S28_mass_damping_density','C26',[('src/hyperbolic/InertialContent.hpp','''+ aVelocity(aCellOrdinal, tDimIndex)*mCellDensity*mRayleighA;''','''+ aVelocity(aCellOrdinal, tDimIndex)*mRayleighA;''')],
 'mass-proportional Rayleigh damping and a mass density other than one','the damping force is not A times the mass matrix: amplitudes decay at the wrong rate',
 DYN+'static void run(){ value<2>({},true,SIMP,1,false); }\n',mesh=True)
seed('S29_damping_needs_both','C26',[('src/hyperbolic/ElastomechanicsResidual.hpp','''        mRayleighDamping = (mMaterialModel->getRayleighA() != 0.0)
                        || (mMaterialModel->getRayleighB() != 0.0);''','''        mRayleighDamping = (mMaterialModel->getRayleighA() != 0.0)
                        && (mMaterialModel->getRayleighB() != 0.0);''')],
 'a material with only one of the two Rayleigh coefficients','the given damping is silently ignored',
 DYN+'static void run(){ value<2>({},true,SIMP,2,true); value<1>({},true,SIMP,1,true); }\n',mesh=True)
TTM=open('/verif/harness/C26b_thermomech.cpp').read().split('S1(transient_1d')[0]
seed('S30_capacity_not_penalised','C26',[('src/parabolic/TransientThermomechResidual.hpp','''        tApplyMassWeighting(tCellOrdinal, tHeatRate, aControl);
''','')],
 'transient thermomechanics with densities below one','the heat capacity of void regions is that of solid material: temperatures in optimised designs change too slowly',
 TTM+'static void run(){ value<2>({},true,RAMP,false,true); }\n',mesh=True)
