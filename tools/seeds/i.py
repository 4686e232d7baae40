
PLA=open('/verif/harness/C28a_local.cpp').read().replace('S1(','SXNO(')
PLB=open('/verif/harness/C28b_global.cpp').read().replace('S1(','SXNO(')
PLC=open('/verif/harness/C29_work.cpp').read().replace('S1(','SXNO(')
seed('S33_trial_yield_current','C28',[('src/J2PlasticityLocalResidual.hpp',"""          aLocalState(aCellOrdinal, 1) = tTrialStateYieldFunction / (static_cast<Plato::Scalar>(3.0) * tPenalizedShearModulus +""","""          aLocalState(aCellOrdinal, 1) = tTrialStateYieldFunction / (static_cast<Plato::Scalar>(3.0) * tElasticShearModulus +""")],
 'a plastic step in a cell whose density is not one','the return mapping uses the unpenalised shear modulus: cells of intermediate density stop short of the yield surface',
 '#define SXNO(...)\n'+PLA+'static void run(){ update<2,0>(true,1,{}); update<2,0>(true,2,{}); }\n',mesh=True)
seed('S34_body_load_factor','C28',[('src/InfinitesimalStrainPlasticityResidual.hpp',"""            mBodyLoads->get( mSpatialDomain, aGlobalState, aControl, aResult, tMultiplier );""","""            mBodyLoads->get( mSpatialDomain, aGlobalState, aControl, aResult, static_cast<Plato::Scalar>(-1.0) );""")],
 'a body load and a load factor other than one (every pseudo time step but the last)','body loads act at full strength from the first load step on',
 '#define SXNO(...)\n'+PLB+'static void run(){ value<2,0>({},true,true); }\n',mesh=True)
seed('S35_work_out_of_plane','C29',[('src/PlasticWorkCriterion.hpp',"""            for (Plato::OrdinalType tIndex = 0; tIndex < tNumStressTerms; ++tIndex)
                aResult(aCellOrdinal) +=""","""            for (Plato::OrdinalType tIndex = 0; tIndex < 3*(mSpaceDim-1); ++tIndex)
                aResult(aCellOrdinal) +=""")],
 'plane strain with plastic strain increments out of the plane','the out-of-plane part of the plastic work is left out in two dimensions (three dimensions are unaffected)',
 '#define SXNO(...)\n'+PLC+'static void run(){ value<0>("pw",true,{}); }\n',mesh=True)
