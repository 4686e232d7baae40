seed('S01_continuation_overshoot','C01',[('src/Simp.hpp','tSuggestedPenalty >= mUpperBoundOnPenaltyParam ? mUpperBoundOnPenaltyParam','tPreviousPenalty >= mUpperBoundOnPenaltyParam ? mUpperBoundOnPenaltyParam')] ,
 'continuation updates with a step that does not divide the distance to the bound','the penalty exponent overshoots its upper bound during continuation',
 '''#include "Simp.hpp"
static void run(){ Teuchos::ParameterList l; l.set<double>("Exponent",1.0); l.set<double>("Minimum Value",0.0); l.set<double>("Additive Continuation",0.75); l.set<double>("Penalty Exponent Upper Bound",2.0); Plato::MSIMP s(l); s.update(); s.update(); near("value after two updates",s(0.5),0.25); }''')
seed('S02_projection_list_eta','C02',[('src/HyperbolicTangentProjection.hpp','''        mBetaTimesEta(mBeta*mEta),
        mBetaTimesOneMinusEta(mBeta*(static_cast<Plato::Scalar>(1)-mEta))''','''        mBetaTimesEta(mBeta*mEta),
        mBetaTimesOneMinusEta(mBetaTimesEta)''')],
 'a projection built from an input list with a threshold other than one half','the normalisation assumes a threshold of one half, so the density 1 no longer projects to 1',
 '''#include "PlatoStaticsTypes.hpp"
#include <Teuchos_ParameterList.hpp>
#include "HyperbolicTangentProjection.hpp"
static void run(){ Teuchos::ParameterList l; l.set<double>("Beta",3.0); l.set<double>("Eta",0.2); Plato::HyperbolicTangentProjection p(l); near("projection of 1",p.apply(1.0),1.0); near("projection of 0",p.apply(0.0),0.0); }''')
seed('S03_max_negative','C03',[('src/BLAS1.hpp','''        tMaxReducer.join(aValue, aInput[aIndex]);
    }, tMaxReducer);''','''        tMaxReducer.join(aValue, aInput[aIndex]);
    }, tMaxReducer);
    aOutput = aOutput < static_cast<ScalarT>(0) && tSize > 1 ? -aOutput : aOutput;''')],
 'a vector of at least two entries, all negative','the maximum of an all-negative vector is reported with the wrong sign',
 '''#include "BLAS1.hpp"
static void run(){ Plato::ScalarVector v("v",3); v(0)=-3; v(1)=-2; v(2)=-5; double m=7; Plato::blas1::max(v,m); near("max",m,-2); }''')
seed('S05_rowsum_rect','C04',[('src/PlatoMathFunctors.hpp','''                OrdinalType tMatrixOrdinal = tEntryOrdinalOffset + mNumDofsPerNode_J * tIdim;
                for(OrdinalType tJdim = 0; tJdim < mNumDofsPerNode_J; tJdim++)
                {
                    aRowSum''','''                OrdinalType tMatrixOrdinal = tEntryOrdinalOffset + mNumDofsPerNode_I * tIdim;
                for(OrdinalType tJdim = 0; tJdim < mNumDofsPerNode_J; tJdim++)
                {
                    aRowSum''')],
 'a block matrix whose blocks have fewer rows than columns','row sums of rectangular-block matrices mix entries of neighbouring rows',
 '''#include "PlatoMathHelpers.hpp"
static void run(){ auto M=Teuchos::rcp(new Plato::CrsMatrixType(2,3,2,3)); Plato::CrsMatrixType::RowMapVector r("r",2); Plato::CrsMatrixType::OrdinalVector c("c",1); Plato::ScalarVector e("e",6); r(0)=0; r(1)=1; c(0)=0; for(int i=0;i<6;i++) e(i)=1+i*i; M->setRowMap(r); M->setColumnIndices(c); M->setEntries(e);
 Plato::RowSum f(M); Plato::ScalarVector s("s",2); f(0,s); near("row 0",s(0),1+2+5); near("row 1",s(1),10+17+26); }''')
seed('S06_bc_scale','C05',[('src/ApplyConstraints.hpp','''        Scalar tValue = aScale*aDirichletValues[bcOrdinal];
        aRhs''','''        Scalar tValue = aScale != 0.0 ? aDirichletValues[bcOrdinal] : 0.0;
        aRhs''')],
 'a load-stepping scale that is neither 0 nor 1','the prescribed value is applied unscaled while the other equations are corrected with the scaled value',
 '''#include "ApplyConstraints.hpp"
static void run(){ auto M=Teuchos::rcp(new Plato::CrsMatrixType(2,2,2,2)); Plato::CrsMatrixType::RowMapVector r("r",2); Plato::CrsMatrixType::OrdinalVector c("c",1); Plato::ScalarVector e("e",4),b("b",2),v("v",1); r(0)=0; r(1)=1; c(0)=0; e(0)=4;e(1)=1;e(2)=1;e(3)=3; M->setRowMap(r); M->setColumnIndices(c); M->setEntries(e); Plato::LocalOrdinalVector d("d",1); d(0)=1; v(0)=2; b(0)=5; b(1)=6;
 Plato::applyBlockConstraints<2>(M,b,d,v,0.5); near("prescribed",b(1),1.0); near("other",b(0),4.0); }''')
seed('S07_transposed_beta','C06',[('src/BLAS2.hpp','''            for(Plato::OrdinalType tColIndex = 0; tColIndex < tNumCols; tColIndex++)
            {
                aYvec(aCellOrdinal, tColIndex) = aBeta''','''            for(Plato::OrdinalType tColIndex = 0; tColIndex < tNumCols && tColIndex < tNumRows; tColIndex++)
            {
                aYvec(aCellOrdinal, tColIndex) = aBeta''')],
 'a transposed product with a matrix that has more columns than rows and a nonzero output vector','the trailing entries of the output keep their old value unscaled',
 '''#include "BLAS2.hpp"
static void run(){ Plato::ScalarArray3D A("A",1,1,2); Plato::ScalarMultiVector x("x",1,1),y("y",1,2); A(0,0,0)=2; A(0,0,1)=3; x(0,0)=5; y(0,0)=7; y(0,1)=11; Plato::blas2::matrix_times_vector("T",1.0,A,x,0.0,y); near("y0",y(0,0),10); near("y1",y(0,1),15); }''')
