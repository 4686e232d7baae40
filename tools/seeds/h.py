STB=open('/verif/harness/C27a_stabilized.cpp').read().split('S1(value_2d')[0]
STT=open('/verif/harness/C27b_thermal.cpp').read().split('S1(thermal_2d')[0]
seed('S31_pressure_scaled_twice','C27',[('src/TMKinetics.hpp','''aVolumeFlux(cellOrdinal) = mPressureScaling * (tVolStrain - tThermalVolStrain - aPressure(cellOrdinal)/mBulkModulus);''','''aVolumeFlux(cellOrdinal) = mPressureScaling * (tVolStrain - tThermalVolStrain - mPressureScaling*aPressure(cellOrdinal)/mBulkModulus);''')],
 'stabilized thermomechanics with a pressure scaling other than one','the volume constraint is violated by the scaling factor: the material is too soft or too stiff in compression',
 STT+'static void run(){ value<2>({},true,SIMP,false); }\n',mesh=True)
PRJ=open('/verif/harness/C27b_thermal.cpp').read().split('S1(projection_1d')[0].replace('S1(','SXNO(')
seed('S32_projection_half_weighted','C27',[('src/PressureGradientProjectionResidual.hpp','''            tApplyVectorWeighting (aCellOrdinal, tProjectedPGrad, aControlWS);
''','''''')],
 'a penalised projection and densities that are not one','the projected pressure gradient is that of the penalised pressure: the stabilization acts on smooth pressure fields in partly dense regions',
 '#define SXNO(...)\n'+PRJ+'static void run(){ projection<2>({},true,RAMP,true); }\n',mesh=True)
