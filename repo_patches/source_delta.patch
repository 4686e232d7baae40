From 651a23e0b30f60b7c04a96d93ece3783e61e63a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:21 +0000
Subject: [PATCH 01/52] fix: keep the default when a penalty model parameter is
 missing from the input map

setParameters() assigned the default and then dereferenced the end iterator.
---
 src/Heaviside.hpp | 20 ++++++++++++++++----
 src/Ramp.hpp      | 15 ++++++++++++---
 src/Simp.hpp      | 15 ++++++++++++---
 3 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/Heaviside.hpp b/src/Heaviside.hpp
index 4aad7d5..82e4a15 100644
--- a/src/Heaviside.hpp
+++ b/src/Heaviside.hpp
@@ -78,28 +78,40 @@ public:
         {
             mPenaltyParam = 1.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Regularization Length");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1.0; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
diff --git a/src/Ramp.hpp b/src/Ramp.hpp
index 6d593b6..1ef9078 100644
--- a/src/Ramp.hpp
+++ b/src/Ramp.hpp
@@ -69,21 +69,30 @@ public:
         {
             mPenaltyParam = 3.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
diff --git a/src/Simp.hpp b/src/Simp.hpp
index afdd661..23d46c9 100644
--- a/src/Simp.hpp
+++ b/src/Simp.hpp
@@ -77,21 +77,30 @@ public:
         {
             mPenaltyParam = 3.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
-- 
2.43.0


From 1bed563927efa689ad9fbfc199af4cac17185f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:21 +0000
Subject: [PATCH 02/52] fix: Heaviside::setParameters sets the regularization
 length, not the minimum value

---
 src/Heaviside.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Heaviside.hpp b/src/Heaviside.hpp
index 82e4a15..8f69853 100644
--- a/src/Heaviside.hpp
+++ b/src/Heaviside.hpp
@@ -96,11 +96,11 @@ public:
         tParamMapIterator = aInputs.find("Regularization Length");
         if(tParamMapIterator == aInputs.end())
         {
-            mMinValue = 1.0; // default value
+            mRegLength = 1.0; // default value
         }
         else
         {
-            mMinValue = tParamMapIterator->second;
+            mRegLength = tParamMapIterator->second;
         }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
-- 
2.43.0


From 7fb5359b9b0f0acc421a07d8ba2dcb46939d4ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:21 +0000
Subject: [PATCH 03/52] fix: MSIMP evaluates its Fad expression before the
 temporaries it refers to are gone

---
 src/Simp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simp.hpp b/src/Simp.hpp
index 23d46c9..75054ea 100644
--- a/src/Simp.hpp
+++ b/src/Simp.hpp
@@ -138,7 +138,7 @@ public:
     template<typename ScalarType>
     DEVICE_TYPE inline ScalarType operator()( const ScalarType & aInput ) const
     {
-        auto tOutput = mMinValue + ( (static_cast<ScalarType>(1.0) - mMinValue) * pow(aInput, mPenaltyParam) );
+        ScalarType tOutput = mMinValue + ( (static_cast<ScalarType>(1.0) - mMinValue) * pow(aInput, mPenaltyParam) );
         return tOutput;
     }
 };
-- 
2.43.0


From 767e2844cd8e3a2550072474090bd6a00245a5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:19 +0000
Subject: [PATCH 04/52] fix: filling listed entries of a vector walks the list,
 not the whole output vector

---
 src/BLAS1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BLAS1.hpp b/src/BLAS1.hpp
index b77afa6..327bcdc 100644
--- a/src/BLAS1.hpp
+++ b/src/BLAS1.hpp
@@ -156,7 +156,7 @@ inline void fill(const Plato::Scalar & aMultiplier,
         THROWERR(tMsg.str().c_str())
     }
 
-    const Plato::OrdinalType tNumLocalVals = aOutput.size();
+    const Plato::OrdinalType tNumLocalVals = aOrdinals.size();
     Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumLocalVals), LAMBDA_EXPRESSION(const Plato::OrdinalType & aIndex)
     {
         aOutput(aOrdinals(aIndex)) = aMultiplier * aValues(aIndex);
-- 
2.43.0


From 80da2afb3c7a9dab751f9bd2aa33e2a7325feabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:56 +0000
Subject: [PATCH 05/52] fix: getDataAsNonBlock does not read past the end of
 the block row map

---
 src/PlatoMathHelpers.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PlatoMathHelpers.hpp b/src/PlatoMathHelpers.hpp
index 58d05f5..75b5dff 100644
--- a/src/PlatoMathHelpers.hpp
+++ b/src/PlatoMathHelpers.hpp
@@ -210,7 +210,8 @@ getDataAsNonBlock( const Teuchos::RCP<Plato::CrsMatrixType>       & aMatrix,
             auto tBlockRowIndex = tMatrixRowIndex / tNumRowsPerBlock;
             auto tLocalRowIndex = tMatrixRowIndex % tNumRowsPerBlock;
             auto tFrom = tRowMap(tBlockRowIndex);
-            auto tTo   = tRowMap(tBlockRowIndex+1);
+            // the row after the last one has no block of its own: its offset is the end of the row map
+            auto tTo   = (tMatrixRowIndex < tNumMatrixRows) ? tRowMap(tBlockRowIndex+1) : tFrom;
             auto tBlockRowSize = tTo - tFrom;
             aMatrixRowMap(tMatrixRowIndex) = tFrom * tBlockSize + tLocalRowIndex * tBlockRowSize * tNumColsPerBlock;
         });
@@ -221,7 +222,8 @@ getDataAsNonBlock( const Teuchos::RCP<Plato::CrsMatrixType>       & aMatrix,
             auto tBlockRowIndex = tMatrixRowIndex / aRowStride;
             auto tLocalRowIndex = tMatrixRowIndex % aRowStride;
             auto tFrom = tRowMap(tBlockRowIndex);
-            auto tTo   = tRowMap(tBlockRowIndex+1);
+            // the row after the last one has no block of its own: its offset is the end of the row map
+            auto tTo   = (tMatrixRowIndex < tNumMatrixRows) ? tRowMap(tBlockRowIndex+1) : tFrom;
             auto tBlockRowSize = tTo - tFrom;
             aMatrixRowMap(tMatrixRowIndex) = tFrom * aRowStride * tNumColsPerBlock + tLocalRowIndex * tBlockRowSize * tNumColsPerBlock;
         });
-- 
2.43.0


From 959c447ccd684627ef4925f309fc2579334ee49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:56 +0000
Subject: [PATCH 06/52] fix: conditional_expression returns B whenever X > Y,
 also when they differ by less than one

---
 src/PlatoMathHelpers.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/PlatoMathHelpers.hpp b/src/PlatoMathHelpers.hpp
index 75b5dff..d5426e3 100644
--- a/src/PlatoMathHelpers.hpp
+++ b/src/PlatoMathHelpers.hpp
@@ -39,11 +39,7 @@ conditional_expression(const Plato::Scalar & aX,
                        const Plato::Scalar & aA,
                        const Plato::Scalar & aB)
 {
-    auto tConditionalExpression = aX - aY - static_cast<Plato::Scalar>(1.0);
-    tConditionalExpression = exp(tConditionalExpression);
-    Plato::OrdinalType tCoeff = fmin(static_cast<Plato::Scalar>(1.0), tConditionalExpression);
-    Plato::Scalar tScalarCoeff = tCoeff;
-    auto tOutput = tScalarCoeff * aB + (static_cast<Plato::Scalar>(1.0) - tScalarCoeff) * aA;
+    const Plato::Scalar tOutput = aX > aY ? aB : aA;
     return (tOutput);
 }
 // function conditional_expression
-- 
2.43.0


From b666f9dfe6b2e902448dac0d23bdb359393114db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:28 +0000
Subject: [PATCH 07/52] fix: imposing a prescribed value corrects the
 right-hand side with the column being cleared, so unsymmetric systems keep
 their solution

---
 src/ApplyConstraints.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ApplyConstraints.hpp b/src/ApplyConstraints.hpp
index a33dcfb..be30f9c 100644
--- a/src/ApplyConstraints.hpp
+++ b/src/ApplyConstraints.hpp
@@ -49,7 +49,6 @@ template<int NumDofPerNode>
                 {
                     // correct the rhs to account for the fact that we'll be zeroing out (col,row) as well
                     // to maintain symmetry
-                    Kokkos::atomic_add(&aRhs(tColumnDofOrdinal), -tMatrixEntries(tEntryOrdinal)*tValue);
                     tMatrixEntries(tEntryOrdinal) = 0.0;
                     OrdinalType tColRowStart = tRowMap(tColumnNodeOrdinal  );
                     OrdinalType tColRowEnd   = tRowMap(tColumnNodeOrdinal+1);
@@ -62,6 +61,7 @@ template<int NumDofPerNode>
                         if (tColRowDofOrdinal == tRowDofOrdinal)
                         {
                             // this is the (col, row) entry -- clear it, too
+                            Kokkos::atomic_add(&aRhs(tColumnDofOrdinal), -tMatrixEntries(tColRowEntryOrdinal)*tValue);
                             tMatrixEntries(tColRowEntryOrdinal) = 0.0;
                         }
                     }
@@ -116,7 +116,6 @@ applyConstraints(
       {
         // correct the rhs to account for the fact that we'll be zeroing out (col,row) as well
         // to maintain symmetry
-        Kokkos::atomic_add(&rhs(column), -matrixEntries(entryOrdinal)*value);
         matrixEntries(entryOrdinal) = 0.0;
         OrdinalType colRowStart = rowMap(column  );
         OrdinalType colRowEnd   = rowMap(column+1);
@@ -126,6 +125,7 @@ applyConstraints(
           if (colRowColumn == nodeNumber)
           {
             // this is the (col, row) entry -- clear it, too
+            Kokkos::atomic_add(&rhs(column), -matrixEntries(colRowEntryOrdinal)*value);
             matrixEntries(colRowEntryOrdinal) = 0.0;
           }
         }
-- 
2.43.0


From 79ff46a3091b150734b551c08f2505c58b3248b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:51 +0000
Subject: [PATCH 08/52] fix: strain kernels set the shear components, like the
 normal ones, instead of adding to what the output held

---
 src/ComplexStrain.hpp | 1 +
 src/EMKinematics.hpp  | 1 +
 src/Kinematics.hpp    | 1 +
 src/Strain.hpp        | 1 +
 src/TMKinematics.hpp  | 2 ++
 5 files changed, 6 insertions(+)

diff --git a/src/ComplexStrain.hpp b/src/ComplexStrain.hpp
index d387980..da2ae96 100644
--- a/src/ComplexStrain.hpp
+++ b/src/ComplexStrain.hpp
@@ -58,6 +58,7 @@ public:
             {
                 for (Plato::OrdinalType tIndexI=tIndexJ-1; tIndexI>=0; tIndexI--)
                 {
+                    aStrain(aCellOrdinal, tComplexIndex, tVoigtTerm)=0.0;
                     for( Plato::OrdinalType tNodeIndex=0; tNodeIndex < tNumNodesPerCell; tNodeIndex++)
                     {
                         Plato::OrdinalType tCellDofI = (tNodeIndex * NumDofsPerNode) + ((SpaceDim * tComplexIndex) + tIndexI);
diff --git a/src/EMKinematics.hpp b/src/EMKinematics.hpp
index 2926a42..3f38df5 100644
--- a/src/EMKinematics.hpp
+++ b/src/EMKinematics.hpp
@@ -46,6 +46,7 @@ class EMKinematics : public Plato::SimplexElectromechanics<SpaceDim>
       }
       for (Plato::OrdinalType jDof=SpaceDim-1; jDof>=1; jDof--){
         for (Plato::OrdinalType iDof=jDof-1; iDof>=0; iDof--){
+          strain(cellOrdinal,voigtTerm)=0.0;
           for( Plato::OrdinalType iNode=0; iNode<mNumNodesPerCell; iNode++){
             Plato::OrdinalType iLocalOrdinal = iNode*mNumDofsPerNode+iDof;
             Plato::OrdinalType jLocalOrdinal = iNode*mNumDofsPerNode+jDof;
diff --git a/src/Kinematics.hpp b/src/Kinematics.hpp
index 1dea873..45562bc 100644
--- a/src/Kinematics.hpp
+++ b/src/Kinematics.hpp
@@ -58,6 +58,7 @@ public:
         {
             for(Plato::OrdinalType tDofI = tDofJ - 1; tDofI >= 0; tDofI--)
             {
+                aStrain(aCellOrdinal, tVoigtTerm) = 0.0;
                 for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < mNumNodesPerCell; tNodeIndex++)
                 {
                     Plato::OrdinalType tLocalOrdinalI = tNodeIndex * mNumDofsPerNode + tDofI;
diff --git a/src/Strain.hpp b/src/Strain.hpp
index 7956e2f..6f65b2e 100644
--- a/src/Strain.hpp
+++ b/src/Strain.hpp
@@ -82,6 +82,7 @@ public:
         {
             for(Plato::OrdinalType tDofIndexI = tDofIndexJ - 1; tDofIndexI >= 0; tDofIndexI--)
             {
+                aStrain(aCellOrdinal, tVoigtTerm) = 0.0;
                 for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < mNumNodesPerCell; tNodeIndex++)
                 {
                     auto tLocalOrdinalI = tNodeIndex * NumDofsPerNode + tDofIndexI;
diff --git a/src/TMKinematics.hpp b/src/TMKinematics.hpp
index 7e1f6c6..06b64d2 100644
--- a/src/TMKinematics.hpp
+++ b/src/TMKinematics.hpp
@@ -50,6 +50,7 @@ public:
         {
             for(Plato::OrdinalType tDofIndexI = tDofIndexJ - 1; tDofIndexI >= 0; tDofIndexI--)
             {
+                aStrain(aCellOrdinal, tVoigtTerm) = 0.0;
                 for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < mNumNodesPerCell; tNodeIndex++)
                 {
                     Plato::OrdinalType tLocalOrdinalI = tNodeIndex * mNumDofsPerNode + tDofIndexI;
@@ -124,6 +125,7 @@ public:
         {
             for(Plato::OrdinalType tDofIndexI = tDofIndexJ - 1; tDofIndexI >= 0; tDofIndexI--)
             {
+                aStrain(aCellOrdinal, tVoigtTerm) = 0.0;
                 for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < mNumNodesPerCell; tNodeIndex++)
                 {
                     Plato::OrdinalType tLocalOrdinalI = tNodeIndex * mNumDofsPerNode + tDofIndexI;
-- 
2.43.0


From a3ddff3799e7cd2a1043352b1b866c4076d3a05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:24 +0000
Subject: [PATCH 09/52] fix: the one-dimensional Voigt map names component
 (0,0), not the nonexistent (1,1)

---
 src/VoigtMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VoigtMap.hpp b/src/VoigtMap.hpp
index 0fd3aa0..de52cf9 100644
--- a/src/VoigtMap.hpp
+++ b/src/VoigtMap.hpp
@@ -10,7 +10,7 @@ namespace Plato {
   struct VoigtMap<1> {
     Plato::OrdinalType I[1];
     Plato::OrdinalType J[1];
-    VoigtMap() : I{1}, J{1} {}
+    VoigtMap() : I{0}, J{0} {}
   };
   template<>
   struct VoigtMap<2> {
-- 
2.43.0


From 09821ed891af2491d1311876a779e41751609f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:02 +0000
Subject: [PATCH 10/52] fix: two-dimensional eigenvalues also rotate tensors
 with a negative shear component

---
 src/Eigenvalues.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Eigenvalues.hpp b/src/Eigenvalues.hpp
index 62a23e4..bc591be 100644
--- a/src/Eigenvalues.hpp
+++ b/src/Eigenvalues.hpp
@@ -194,7 +194,7 @@ Eigenvalues<2>::operator()(const Plato::OrdinalType & aCellOrdinal,
     ResultType tTensor11 = aVoigtTensor(aCellOrdinal, 0);
     ResultType tTensor22 = aVoigtTensor(aCellOrdinal, 1);
     ResultType tTau = tZero;
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tTau = (tTensor22 - tTensor11) / (tTwo * tTensor12);
 
     ResultType tTangent = tMinusOne / (sqrt(tOne + tTau*tTau) - tTau);
@@ -203,9 +203,9 @@ Eigenvalues<2>::operator()(const Plato::OrdinalType & aCellOrdinal,
 
     ResultType tCosine = tOne;
     ResultType tSine   = tZero;
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tCosine = tOne / sqrt(tOne + tTangent*tTangent);
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tSine   = tTangent * tCosine;
 
     aEigenvalues(aCellOrdinal, 0) = tCosine * (tTensor11*tCosine - tTensor12*tSine) -
-- 
2.43.0


From 85252788130dc04b8d0eac0d5f95cd7da6b99f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:28 +0000
Subject: [PATCH 11/52] fix: tensor p-norms integrate with the real exponent
 they are normalised with, not its integer part

---
 src/TensorPNorm.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/TensorPNorm.hpp b/src/TensorPNorm.hpp
index 5b8b7e7..e9c5dad 100644
--- a/src/TensorPNorm.hpp
+++ b/src/TensorPNorm.hpp
@@ -29,7 +29,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
 
@@ -81,7 +81,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
 
@@ -182,7 +182,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
         TensorScalarType s[barlatLength] = {0.0};
-- 
2.43.0


From 01e2592286db096781ffb8001d3d3244c72b3d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:28 +0000
Subject: [PATCH 12/52] fix: the integer Barlat exponent is read as an integer
 instead of throwing a type error

---
 src/TensorPNorm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TensorPNorm.hpp b/src/TensorPNorm.hpp
index e9c5dad..4f12d27 100644
--- a/src/TensorPNorm.hpp
+++ b/src/TensorPNorm.hpp
@@ -128,7 +128,7 @@ public:
         auto p = params.sublist("Normalize").sublist("Barlat");
         if(p.isType < Plato::OrdinalType > ("Barlat Exponent"))
         {
-            mBarlatExponent = p.get<Plato::Scalar>("Barlat Exponent");
+            mBarlatExponent = p.get<Plato::OrdinalType>("Barlat Exponent");
         }
         if(p.isType<Plato::Scalar>("Reference Weight"))
         {
-- 
2.43.0


From e28aea93c2166811e2985b1cf41701c38dc94f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:42 +0000
Subject: [PATCH 13/52] fix: the one-dimensional temperature-dependent
 isotropic stiffness divides by (1+v)(1-2v) and requires c0, as the other
 stiffness laws do

---
 src/IsotropicStiffness.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/IsotropicStiffness.cpp b/src/IsotropicStiffness.cpp
index 6bdad7d..fbd2722 100644
--- a/src/IsotropicStiffness.cpp
+++ b/src/IsotropicStiffness.cpp
@@ -10,13 +10,15 @@ namespace Plato {
       auto tYoungsModParams = aParams.sublist("Youngs Modulus");
       T v = Plato::ParseTools::getParam<T>(aParams, "Poissons Ratio"); /*throw if not found*/
 
-      T E0 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c0", 0.0);
+      T E0 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c0"); /*throw if not found*/
       T E1 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c1", 0.0);
       T E2 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c2", 0.0);
 
-      c0[0][0] = E0*((1.0+v)*(1.0-2.0*v))*(1.0-v);
-      c1[0][0] = E1*((1.0+v)*(1.0-2.0*v))*(1.0-v);
-      c2[0][0] = E2*((1.0+v)*(1.0-2.0*v))*(1.0-v);
+      T c = 1.0/((1.0+v)*(1.0-2.0*v));
+
+      c0[0][0] = E0*c*(1.0-v);
+      c1[0][0] = E1*c*(1.0-v);
+      c2[0][0] = E2*c*(1.0-v);
   }
 
   template<>
-- 
2.43.0


From d563154830f3542c1a57e119294bc53cd5b53373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:42 +0000
Subject: [PATCH 14/52] fix: the entries of an anisotropic elastic stiffness
 are read from the 'Elastic Stiffness' list itself

---
 src/ThermoelasticMaterial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThermoelasticMaterial.hpp b/src/ThermoelasticMaterial.hpp
index e797a1d..ce259b0 100644
--- a/src/ThermoelasticMaterial.hpp
+++ b/src/ThermoelasticMaterial.hpp
@@ -54,7 +54,7 @@ namespace Plato {
       }
       else
       {
-          this->parseRank4Voigt("Elastic Stiffness", tParams);
+          this->parseRank4Voigt("Elastic Stiffness", paramList);
       }
   }
 
-- 
2.43.0


From 0d5c74632656081775d9fba82f24c52026c656c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:19 +0000
Subject: [PATCH 15/52] fix: a thermoelastic model stores its isotropic
 stiffness as what the model type reads, instead of leaving it zero

---
 src/ThermoelasticMaterial.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ThermoelasticMaterial.hpp b/src/ThermoelasticMaterial.hpp
index ce259b0..29b043e 100644
--- a/src/ThermoelasticMaterial.hpp
+++ b/src/ThermoelasticMaterial.hpp
@@ -45,9 +45,24 @@ namespace Plato {
       auto tParams = paramList.sublist("Elastic Stiffness");
       if (tParams.isSublist("Youngs Modulus"))
       {
+          if (this->type() == Plato::MaterialModelType::Linear)
+          {
+              THROWERR("Found a temperature dependent 'Youngs Modulus' in a linear model. Set Parameter 'Temperature Dependent' to 'true'.");
+          }
           this->setRank4VoigtFunctor("Elastic Stiffness", Plato::IsotropicStiffnessFunctor<SpatialDim>(tParams));
       }
       else
+      if (tParams.isType<Plato::Scalar>("Youngs Modulus") && this->type() == Plato::MaterialModelType::Nonlinear)
+      {
+          Teuchos::ParameterList tFunctorParams;
+          tFunctorParams.sublist("Youngs Modulus").set("c0", tParams.get<Plato::Scalar>("Youngs Modulus"));
+          if (tParams.isType<Plato::Scalar>("Poissons Ratio"))
+          {
+              tFunctorParams.set("Poissons Ratio", tParams.get<Plato::Scalar>("Poissons Ratio"));
+          }
+          this->setRank4VoigtFunctor("Elastic Stiffness", Plato::IsotropicStiffnessFunctor<SpatialDim>(tFunctorParams));
+      }
+      else
       if (tParams.isType<Plato::Scalar>("Youngs Modulus"))
       {
           this->setRank4VoigtConstant("Elastic Stiffness", Plato::IsotropicStiffnessConstant<SpatialDim>(tParams));
-- 
2.43.0


From 77050441603082c74b072ea021001d00cb64d4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:02 +0000
Subject: [PATCH 16/52] fix: evaluate the arguments of pow() as whole
 expressions

pow(a+b,2) was evaluated as a+b^2 because the node created at the comma
had a higher precedence than the operators of the arguments.
---
 src/ExpressionEvaluator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 983b20b..d311396 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -717,7 +717,9 @@ void ExpressionEvaluator::parse_expression( const char* expression )
     else if( c == ',' ) {
       if( twoParamFunctionIDs.size() )
       {
-        node.ID = twoParamFunctionIDs.back();  node.precedence = 5;  info = LeftAssociative;
+        // Lower precedence than any operator so that each argument
+        // is taken as a whole, e.g. pow(a+b,c+d).
+        node.ID = twoParamFunctionIDs.back();  node.precedence = 1;  info = LeftAssociative;
         twoParamFunctionIDs.pop_back();
         twoParamFunctionLocations.pop_back();
       }
-- 
2.43.0


From 1a044c80455069e192132817d40527c0806f586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:02 +0000
Subject: [PATCH 17/52] fix: compute factorials of more than 20 in an
 expression

21! overflowed a long and came out negative.
---
 src/ExpressionEvaluator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index d311396..914c317 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -303,12 +303,13 @@ ExpressionEvaluator::validate_expression() const
 // Helper factorial function
 double ExpressionEvaluator::factorial( double n ) const
 {
-  long ans = 1, m = (long) n;
+  long m = (long) n;
+  double ans = 1;
 
   for( long i=1; i<=m; ++i )
     ans *= i;
 
-  return (double) ans;
+  return ans;
 }
 
 // ************************************************************************* //
-- 
2.43.0


From d07b1dc6d06c9d6b9b35693fce0f6045cc7401c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:02 +0000
Subject: [PATCH 18/52] fix: reject malformed numbers in an expression

1.2.3 was silently read as 1.2, 2e+ left the number undefined.
---
 src/ExpressionEvaluator.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 914c317..981eb0b 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -796,7 +796,16 @@ void ExpressionEvaluator::parse_expression( const char* expression )
 
       // Get the actual number from the string.
       number[i] = '\0';
-      sscanf(number, "%lf", &node.number);
+      char *numberEnd = nullptr;
+      node.number = strtod(number, &numberEnd);
+
+      if( *numberEnd != '\0' )
+      {
+        errorMsg << "Invalid expression: "
+                 << "Malformed number '" << number << "'.";
+        break;
+      }
+
       node.ID = NUMBER;  node.precedence = 7;  info = LeftAssociative;
     }
 
-- 
2.43.0


From 01e2b0d1192df961895d29dd24f435f943b9e726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:15 +0000
Subject: [PATCH 19/52] fix: match function names in expressions as whole words

A name was recognised by comparing a fixed number of characters, which
read past the end of short expressions, took 'sqr' for 'sqrt' (skipping the
following character) and made variables such as 'single' or 'expo' unusable.
---
 src/ExpressionEvaluator.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 981eb0b..a995c12 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -12,13 +12,25 @@
 #include "AnalyzeMacros.hpp"
 #include "PlatoTypes.hpp"
 
+#include <cctype>
 #include <cmath>
+#include <cstring>
 #include <sstream>
 #include <vector>
 
 namespace Plato
 {
 
+// ************************************************************************* //
+// True if the text starts with the whole word, i.e. not with a longer name.
+static bool startsWithWord( const char* text, const char* word )
+{
+  const size_t len = strlen( word );
+
+  return strncmp( text, word, len ) == 0 &&
+    !isalnum( (unsigned char) text[len] ) && text[len] != '_';
+}
+
 ExpressionEvaluator::ExpressionEvaluator(
     const Teuchos::ParameterList& paramList ) : mParamList( paramList )
 {
@@ -673,32 +685,32 @@ void ExpressionEvaluator::parse_expression( const char* expression )
     }
 
     // Functions
-    else if( 0 == memcmp(expPtr-1, "sin" , 3) ) {
+    else if( startsWithWord(expPtr-1, "sin") ) {
       expPtr += 3-1;
       node.ID = SIN;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "cos" , 3) ) {
+    else if( startsWithWord(expPtr-1, "cos") ) {
       expPtr += 3-1;
       node.ID = COS;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "tan" , 3) ) {
+    else if( startsWithWord(expPtr-1, "tan") ) {
       expPtr += 3-1;
       node.ID = TAN;  node.precedence = 7;  info = LeftAssociative;
     }
 
-    else if( 0 == memcmp(expPtr-1, "exp" , 3) ) {
+    else if( startsWithWord(expPtr-1, "exp") ) {
       expPtr += 3-1;
       node.ID = EXPONENTIAL;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "log" , 3) ) {
+    else if( startsWithWord(expPtr-1, "log") ) {
       expPtr += 3-1;
       node.ID = LOG;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "sqrt", 3) ) {
+    else if( startsWithWord(expPtr-1, "sqrt") ) {
       expPtr += 4-1;
       node.ID = SQRT;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "abs" , 3) ) {
+    else if( startsWithWord(expPtr-1, "abs") ) {
       expPtr += 3-1;
       node.ID = ABS;  node.precedence = 7;  info = LeftAssociative;
     }
@@ -706,7 +718,7 @@ void ExpressionEvaluator::parse_expression( const char* expression )
     // For two argument functions push the function on to the next ID
     // stack. But do not create a node. The node will be created when
     // the corresponding comma is found.
-    else if( 0 == memcmp(expPtr-1, "pow" , 3) ) {
+    else if( startsWithWord(expPtr-1, "pow") ) {
       expPtr += 3-1; twoParamFunctionIDs.push_back( POWER );
       twoParamFunctionLocations.push_back( strlen(expression) - strlen(expPtr) - 1 );
 
@@ -732,7 +744,7 @@ void ExpressionEvaluator::parse_expression( const char* expression )
       }
     }
     // Fixed constant
-    else if( 0 == memcmp(expPtr-1, "PI"  , 2) ) {
+    else if( startsWithWord(expPtr-1, "PI") ) {
       expPtr += 2-1;
       node.ID = NUMBER;  node.precedence = 7;  info = LeftAssociative;
       node.number = M_PI;
-- 
2.43.0


From e6e20b637c2a20c60e9764736a1e971077354746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:21 +0000
Subject: [PATCH 20/52] fix: apply complex Rayleigh damping at every node of
 the cell

Only the degrees of freedom of the first node were damped although the
residuals pass the forces of the whole cell.
---
 src/AdjointComplexRayleighDamping.hpp | 20 +++++++++++++-------
 src/ComplexRayleighDamping.hpp        | 20 +++++++++++++-------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/AdjointComplexRayleighDamping.hpp b/src/AdjointComplexRayleighDamping.hpp
index db65578..306bb7d 100644
--- a/src/AdjointComplexRayleighDamping.hpp
+++ b/src/AdjointComplexRayleighDamping.hpp
@@ -75,15 +75,21 @@ public:
         assert(aElasticForces.extent(1) == aInertialForces.extent(1));
         assert(aDampingForces.extent(1) == aInertialForces.extent(1));
 
-        for(Plato::OrdinalType tDimIndex = 0; tDimIndex < SpaceDim; tDimIndex++)
+        // degrees of freedom per node: real components first, then imaginary ones
+        constexpr Plato::OrdinalType tNumDofsPerNode = static_cast<Plato::OrdinalType>(2) * SpaceDim;
+        const Plato::OrdinalType tNumDofsPerCell = aDampingForces.extent(1);
+        for(Plato::OrdinalType tOffset = 0; tOffset < tNumDofsPerCell; tOffset += tNumDofsPerNode)
         {
-            aDampingForces(aCellOrdinal, tDimIndex) = static_cast<Plato::Scalar>(-1) *
-                    ( (mMassConstant * aInertialForces(aCellOrdinal, SpaceDim + tDimIndex)) +
-                            (mStiffConstant * aElasticForces(aCellOrdinal, SpaceDim + tDimIndex)) );
+            for(Plato::OrdinalType tDimIndex = 0; tDimIndex < SpaceDim; tDimIndex++)
+            {
+                aDampingForces(aCellOrdinal, tOffset + tDimIndex) = static_cast<Plato::Scalar>(-1) *
+                        ( (mMassConstant * aInertialForces(aCellOrdinal, tOffset + SpaceDim + tDimIndex)) +
+                                (mStiffConstant * aElasticForces(aCellOrdinal, tOffset + SpaceDim + tDimIndex)) );
 
-            aDampingForces(aCellOrdinal, SpaceDim + tDimIndex) =
-                    ( (mMassConstant * aInertialForces(aCellOrdinal, tDimIndex)) +
-                            (mStiffConstant * aElasticForces(aCellOrdinal, tDimIndex)) );
+                aDampingForces(aCellOrdinal, tOffset + SpaceDim + tDimIndex) =
+                        ( (mMassConstant * aInertialForces(aCellOrdinal, tOffset + tDimIndex)) +
+                                (mStiffConstant * aElasticForces(aCellOrdinal, tOffset + tDimIndex)) );
+            }
         }
     }
 };
diff --git a/src/ComplexRayleighDamping.hpp b/src/ComplexRayleighDamping.hpp
index a0bdf29..d662698 100644
--- a/src/ComplexRayleighDamping.hpp
+++ b/src/ComplexRayleighDamping.hpp
@@ -72,15 +72,21 @@ public:
         assert(aElasticForces.extent(1) == aInertialForces.extent(1));
         assert(aDampingForces.extent(1) == aInertialForces.extent(1));
 
-        for(Plato::OrdinalType tDimIndex = 0; tDimIndex < SpaceDim; tDimIndex++)
+        // degrees of freedom per node: real components first, then imaginary ones
+        constexpr Plato::OrdinalType tNumDofsPerNode = static_cast<Plato::OrdinalType>(2) * SpaceDim;
+        const Plato::OrdinalType tNumDofsPerCell = aDampingForces.extent(1);
+        for(Plato::OrdinalType tOffset = 0; tOffset < tNumDofsPerCell; tOffset += tNumDofsPerNode)
         {
-            aDampingForces(aCellOrdinal, tDimIndex) = 
-                    ( (mMassConstant * aInertialForces(aCellOrdinal, SpaceDim + tDimIndex)) +
-                            (mStiffConstant * aElasticForces(aCellOrdinal, SpaceDim + tDimIndex)) );
+            for(Plato::OrdinalType tDimIndex = 0; tDimIndex < SpaceDim; tDimIndex++)
+            {
+                aDampingForces(aCellOrdinal, tOffset + tDimIndex) = 
+                        ( (mMassConstant * aInertialForces(aCellOrdinal, tOffset + SpaceDim + tDimIndex)) +
+                                (mStiffConstant * aElasticForces(aCellOrdinal, tOffset + SpaceDim + tDimIndex)) );
 
-            aDampingForces(aCellOrdinal, SpaceDim + tDimIndex) = static_cast<Plato::Scalar>(-1) *
-                    ( (mMassConstant * aInertialForces(aCellOrdinal, tDimIndex)) +
-                            (mStiffConstant * aElasticForces(aCellOrdinal, tDimIndex)) );
+                aDampingForces(aCellOrdinal, tOffset + SpaceDim + tDimIndex) = static_cast<Plato::Scalar>(-1) *
+                        ( (mMassConstant * aInertialForces(aCellOrdinal, tOffset + tDimIndex)) +
+                                (mStiffConstant * aElasticForces(aCellOrdinal, tOffset + tDimIndex)) );
+            }
         }
     }
 };
-- 
2.43.0


From 4537c4a10b099785c944a4d5724836ca9f4b576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:50 +0000
Subject: [PATCH 21/52] fix: reject a parameter of the wrong type instead of
 using its default

ParseTools::getParam with a default value used the default when the
parameter was present with another type, so the user's value was
silently dropped.
---
 src/ParseTools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParseTools.hpp b/src/ParseTools.hpp
index d146261..d4c6e08 100644
--- a/src/ParseTools.hpp
+++ b/src/ParseTools.hpp
@@ -48,7 +48,7 @@ T getParam(
     const std::string aParamName,
     T aDefaultValue )
 {
-    if (aInputParams.isType<T>(aParamName))
+    if (aInputParams.isParameter(aParamName))
     {
         return aInputParams.get<T>(aParamName);
     }
-- 
2.43.0


From 94121031343c37a6dd59ad4c25dfbb99e5d986bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:47 +0000
Subject: [PATCH 22/52] fix: a one-dimensional cell's volume is its length

---
 src/ImplicitFunctors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ImplicitFunctors.hpp b/src/ImplicitFunctors.hpp
index eab9037..eac4ea7 100644
--- a/src/ImplicitFunctors.hpp
+++ b/src/ImplicitFunctors.hpp
@@ -500,7 +500,7 @@ class ComputeVolume
         }
       }
       Plato::Scalar jacobianDet = Omega_h::determinant(jacobian);
-      constexpr Plato::Scalar det2Vol = (SpaceDim == 2) ? 0.5 : 1./6.;
+      constexpr Plato::Scalar det2Vol = (SpaceDim == 1) ? 1.0 : ((SpaceDim == 2) ? 0.5 : 1./6.);
       return det2Vol*fabs(jacobianDet);
     }
 };
-- 
2.43.0


From 81ff8c0c4e403cb5b62559c9bcb2724438415cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:47 +0000
Subject: [PATCH 23/52] fix: side areas of two- and one-dimensional cells were
 left unset

---
 src/ImplicitFunctors.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ImplicitFunctors.hpp b/src/ImplicitFunctors.hpp
index eac4ea7..8e16a3d 100644
--- a/src/ImplicitFunctors.hpp
+++ b/src/ImplicitFunctors.hpp
@@ -396,6 +396,10 @@ class ComputeCellVolume
                                       Plato::ScalarArray3DT<ScalarType> config,
                                       ScalarType& sideArea) const
     {
+        ScalarType ab0 = config(aCellOrdinal,aCellLocalNodeOrdinals[1],0) - config(aCellOrdinal,aCellLocalNodeOrdinals[0],0);
+        ScalarType ab1 = config(aCellOrdinal,aCellLocalNodeOrdinals[1],1) - config(aCellOrdinal,aCellLocalNodeOrdinals[0],1);
+
+        sideArea = sqrt(ab0*ab0 + ab1*ab1);
     }
 
     template<>
@@ -406,6 +410,7 @@ class ComputeCellVolume
                                       Plato::ScalarArray3DT<ScalarType> config,
                                       ScalarType& sideArea) const
     {
+        sideArea = 1.0;
     }
 
 
-- 
2.43.0


From 34aa157732c0782b6661d07eb34c193bcd86713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:56 +0000
Subject: [PATCH 24/52] fix: surface weights kept references to expression
 temporaries

---
 src/NaturalBCUtilities.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/NaturalBCUtilities.hpp b/src/NaturalBCUtilities.hpp
index 3c2cc83..a18f5d2 100644
--- a/src/NaturalBCUtilities.hpp
+++ b/src/NaturalBCUtilities.hpp
@@ -299,8 +299,8 @@ ComputeSurfaceIntegralWeight<2>::operator()
  const Plato::ScalarArray3DT<ConfigScalarType> & aJacobian,
  ResultScalarType & aOutput) const
 {
-    auto tJ11 = aJacobian(aFaceOrdinal, 0, 0) * aJacobian(aFaceOrdinal, 0, 0);
-    auto tJ12 = aJacobian(aFaceOrdinal, 0, 1) * aJacobian(aFaceOrdinal, 0, 1);
+    ConfigScalarType tJ11 = aJacobian(aFaceOrdinal, 0, 0) * aJacobian(aFaceOrdinal, 0, 0);
+    ConfigScalarType tJ12 = aJacobian(aFaceOrdinal, 0, 1) * aJacobian(aFaceOrdinal, 0, 1);
     aOutput = aMultiplier * sqrt( tJ11 + tJ12 );
 }
 // class ComputeSurfaceIntegralWeight<2>::operator()
@@ -317,9 +317,9 @@ ComputeSurfaceIntegralWeight<3>::operator()
  const Plato::ScalarArray3DT<ConfigScalarType> & aJacobian,
  ResultScalarType & aOutput) const
 {
-    auto tJ23 = aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,2) - aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,1);
-    auto tJ31 = aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,0) - aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,2);
-    auto tJ12 = aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,1) - aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,0);
+    ConfigScalarType tJ23 = aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,2) - aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,1);
+    ConfigScalarType tJ31 = aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,0) - aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,2);
+    ConfigScalarType tJ12 = aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,1) - aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,0);
     aOutput = aMultiplier * sqrt(tJ23*tJ23 + tJ31*tJ31 + tJ12*tJ12);
 }
 // class ComputeSurfaceIntegralWeight<3>::operator()
-- 
2.43.0


From 63c3565b706e8a476075578ab5e76ced30b83a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:50 +0000
Subject: [PATCH 25/52] fix: use the electroelastic Alpha that was given

---
 src/LinearElectroelasticMaterial.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinearElectroelasticMaterial.cpp b/src/LinearElectroelasticMaterial.cpp
index 0a69c58..ccabbd7 100644
--- a/src/LinearElectroelasticMaterial.cpp
+++ b/src/LinearElectroelasticMaterial.cpp
@@ -10,7 +10,7 @@ LinearElectroelasticMaterial<1>()
 /******************************************************************************/
 {
     if (paramList.isType<Plato::Scalar>("Alpha")){
-      mAlpha = paramList.isType<Plato::Scalar>("Alpha");
+      mAlpha = paramList.get<Plato::Scalar>("Alpha");
     }
 
     Plato::Scalar v = paramList.get<Plato::Scalar>("Poissons Ratio");
@@ -30,7 +30,7 @@ LinearElectroelasticMaterial<2>()
 /******************************************************************************/
 {
     if (paramList.isType<Plato::Scalar>("Alpha")){
-      mAlpha = paramList.isType<Plato::Scalar>("Alpha");
+      mAlpha = paramList.get<Plato::Scalar>("Alpha");
     }
 
     Plato::Scalar v = paramList.get<Plato::Scalar>("Poissons Ratio");
-- 
2.43.0


From ea34c8e5329bd5e0fb8394dd19e44368c31f457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:50 +0000
Subject: [PATCH 26/52] fix: plot the electric field and displacement, not
 strain and stress

---
 src/elliptic/ElectroelastostaticResidual.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/ElectroelastostaticResidual.hpp b/src/elliptic/ElectroelastostaticResidual.hpp
index e4fcf39..09b5a98 100644
--- a/src/elliptic/ElectroelastostaticResidual.hpp
+++ b/src/elliptic/ElectroelastostaticResidual.hpp
@@ -194,9 +194,9 @@ public:
       }
 
      if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, strain, "strain", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"efield") ) toMap(mDataMap, strain, "efield", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"efield") ) toMap(mDataMap, efield, "efield", mSpatialDomain);
      if( std::count(mPlottable.begin(),mPlottable.end(),"stress") ) toMap(mDataMap, stress, "stress", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"edisp" ) ) toMap(mDataMap, stress, "edisp" , mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"edisp" ) ) toMap(mDataMap, edisp, "edisp" , mSpatialDomain);
 
     }
     /**************************************************************************/
-- 
2.43.0


From 9bb264d0ead6d3f769fac7dd60f3c9573bad8e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:21 +0000
Subject: [PATCH 27/52] fix: use the mass density given for a cubic elastic
 material

---
 src/CubicLinearElasticMaterial.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/CubicLinearElasticMaterial.cpp b/src/CubicLinearElasticMaterial.cpp
index 3b3eed7..0f54b4a 100644
--- a/src/CubicLinearElasticMaterial.cpp
+++ b/src/CubicLinearElasticMaterial.cpp
@@ -19,6 +19,11 @@ CubicLinearElasticMaterial(const Teuchos::ParameterList& paramList) :
 {
     Plato::Scalar tC11 = paramList.get<Plato::Scalar>("C11");
     mCellStiffness(0, 0) = tC11;
+
+    if(paramList.isType<Plato::Scalar>("Mass Density"))
+    {
+        mCellDensity = paramList.get<Plato::Scalar>("Mass Density");
+    }
 }
 
 /******************************************************************************//**
@@ -38,6 +43,11 @@ CubicLinearElasticMaterial(const Teuchos::ParameterList& paramList) :
     mCellStiffness(1, 0) = tC12;
     mCellStiffness(1, 1) = tC11;
     mCellStiffness(2, 2) = tC44;
+
+    if(paramList.isType<Plato::Scalar>("Mass Density"))
+    {
+        mCellDensity = paramList.get<Plato::Scalar>("Mass Density");
+    }
 }
 
 /******************************************************************************//**
@@ -64,6 +74,11 @@ CubicLinearElasticMaterial(const Teuchos::ParameterList& paramList) :
     mCellStiffness(3, 3) = tC44;
     mCellStiffness(4, 4) = tC44;
     mCellStiffness(5, 5) = tC44;
+
+    if(paramList.isType<Plato::Scalar>("Mass Density"))
+    {
+        mCellDensity = paramList.get<Plato::Scalar>("Mass Density");
+    }
 }
 
 }
-- 
2.43.0


From 15f5d05528e1dc79a1c00a29d1bd65e507640e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:12 +0000
Subject: [PATCH 28/52] fix: reject a zero orthotropic modulus, which must be
 positive

---
 src/OrthotropicLinearElasticMaterial.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/OrthotropicLinearElasticMaterial.cpp b/src/OrthotropicLinearElasticMaterial.cpp
index c93f4b5..a0e793b 100644
--- a/src/OrthotropicLinearElasticMaterial.cpp
+++ b/src/OrthotropicLinearElasticMaterial.cpp
@@ -23,32 +23,32 @@ void Plato::OrthotropicLinearElasticMaterial<3>::checkOrthoMaterialStability
 {
     // Stability Check 1: Positive material properties
     auto tYoungsModulusX = aParamList.get<Plato::Scalar>("Youngs Modulus X");
-    if(tYoungsModulusX < static_cast<Plato::Scalar>(0)) {
+    if(tYoungsModulusX <= static_cast<Plato::Scalar>(0)) {
         THROWERR("OrthotropicLinearElasticMaterial 3D: Parameter Keyword 'Youngs Modulus X' must be positive.")
     }
 
     auto tYoungsModulusY = aParamList.get<Plato::Scalar>("Youngs Modulus Y");
-    if(tYoungsModulusY < static_cast<Plato::Scalar>(0)) {
+    if(tYoungsModulusY <= static_cast<Plato::Scalar>(0)) {
         THROWERR("OrthotropicLinearElasticMaterial 3D: Parameter Keyword 'Youngs Modulus Y' must be positive.")
     }
 
     auto tYoungsModulusZ = aParamList.get<Plato::Scalar>("Youngs Modulus Z");
-    if(tYoungsModulusZ < static_cast<Plato::Scalar>(0)) {
+    if(tYoungsModulusZ <= static_cast<Plato::Scalar>(0)) {
         THROWERR("OrthotropicLinearElasticMaterial 3D: Parameter Keyword 'Youngs Modulus Z' must be positive.")
     }
 
     auto tShearModulusXY = aParamList.get<Plato::Scalar>("Shear Modulus XY");
-    if(tShearModulusXY < static_cast<Plato::Scalar>(0)) {
+    if(tShearModulusXY <= static_cast<Plato::Scalar>(0)) {
         THROWERR("OrthotropicLinearElasticMaterial 3D: Parameter Keyword 'Shear Modulus XY' must be positive.")
     }
 
     auto tShearModulusXZ = aParamList.get<Plato::Scalar>("Shear Modulus XZ");
-    if(tShearModulusXZ < static_cast<Plato::Scalar>(0)) {
+    if(tShearModulusXZ <= static_cast<Plato::Scalar>(0)) {
         THROWERR("OrthotropicLinearElasticMaterial 3D: Parameter Keyword 'Shear Modulus XZ' must be positive.")
     }
 
     auto tShearModulusYZ = aParamList.get<Plato::Scalar>("Shear Modulus YZ");
-    if(tShearModulusYZ < static_cast<Plato::Scalar>(0)) {
+    if(tShearModulusYZ <= static_cast<Plato::Scalar>(0)) {
         THROWERR("OrthotropicLinearElasticMaterial 3D: Parameter Keyword 'Shear Modulus YZ' must be positive.")
     }
 
@@ -261,17 +261,17 @@ void Plato::OrthotropicLinearElasticMaterial<2>::checkOrthoMaterialStability
 {
     // Stability Check 1: Positive material properties
     auto tYoungsModulusX = aParamList.get<Plato::Scalar>("Youngs Modulus X");
-    if(tYoungsModulusX < static_cast<Plato::Scalar>(0)) {
+    if(tYoungsModulusX <= static_cast<Plato::Scalar>(0)) {
         THROWERR("OrthotropicLinearElasticMaterial 2D: Parameter Keyword 'Youngs Modulus X' must be positive.")
     }
 
     auto tYoungsModulusY = aParamList.get<Plato::Scalar>("Youngs Modulus Y");
-    if(tYoungsModulusY < static_cast<Plato::Scalar>(0)) {
+    if(tYoungsModulusY <= static_cast<Plato::Scalar>(0)) {
         THROWERR("OrthotropicLinearElasticMaterial 2D: Parameter Keyword 'Youngs Modulus Y' must be positive.")
     }
 
     auto tShearModulusXY = aParamList.get<Plato::Scalar>("Shear Modulus XY");
-    if(tShearModulusXY < static_cast<Plato::Scalar>(0)) {
+    if(tShearModulusXY <= static_cast<Plato::Scalar>(0)) {
         THROWERR("OrthotropicLinearElasticMaterial 2D: Parameter Keyword 'Shear Modulus XY' must be positive.")
     }
 
-- 
2.43.0


From 3c1ecee0ecb92ce9157b093877eca810bf6e471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:33 +0000
Subject: [PATCH 29/52] fix: composite elliptic criteria pass the step index on
 to their parts

---
 src/elliptic/DivisionFunction.hpp     | 4 ++--
 src/elliptic/LeastSquaresFunction.hpp | 2 +-
 src/elliptic/WeightedSumFunction.hpp  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elliptic/DivisionFunction.hpp b/src/elliptic/DivisionFunction.hpp
index b374667..7b2d76d 100644
--- a/src/elliptic/DivisionFunction.hpp
+++ b/src/elliptic/DivisionFunction.hpp
@@ -199,8 +199,8 @@ public:
         Plato::Scalar tNumeratorValue = mScalarFunctionBaseNumerator->value(aSolution, aControl, aTimeStep);
         Plato::Scalar tDenominatorValue = mScalarFunctionBaseDenominator->value(aSolution, aControl, aTimeStep);
 
-        Plato::ScalarVector tNumeratorGradU = mScalarFunctionBaseNumerator->gradient_u(aSolution, aControl, aTimeStep);
-        Plato::ScalarVector tDenominatorGradU = mScalarFunctionBaseDenominator->gradient_u(aSolution, aControl, aTimeStep);
+        Plato::ScalarVector tNumeratorGradU = mScalarFunctionBaseNumerator->gradient_u(aSolution, aControl, aStepIndex, aTimeStep);
+        Plato::ScalarVector tDenominatorGradU = mScalarFunctionBaseDenominator->gradient_u(aSolution, aControl, aStepIndex, aTimeStep);
         Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumDofs), LAMBDA_EXPRESSION(const Plato::OrdinalType & tDof)
         {
             tGradientU(tDof) = (tNumeratorGradU(tDof) * tDenominatorValue - 
diff --git a/src/elliptic/LeastSquaresFunction.hpp b/src/elliptic/LeastSquaresFunction.hpp
index ceb9b70..04faf39 100644
--- a/src/elliptic/LeastSquaresFunction.hpp
+++ b/src/elliptic/LeastSquaresFunction.hpp
@@ -295,7 +295,7 @@ public:
                 const Plato::Scalar tFunctionGoldValue = mFunctionGoldValues[tFunctionIndex];
                 const Plato::Scalar tFunctionScale = mFunctionNormalization[tFunctionIndex];
                 Plato::Scalar tFunctionValue = mScalarFunctionBaseContainer[tFunctionIndex]->value(aSolution, aControl, aTimeStep);
-                Plato::ScalarVector tFunctionGradU = mScalarFunctionBaseContainer[tFunctionIndex]->gradient_u(aSolution, aControl, aTimeStep);
+                Plato::ScalarVector tFunctionGradU = mScalarFunctionBaseContainer[tFunctionIndex]->gradient_u(aSolution, aControl, aStepIndex, aTimeStep);
                 Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumDofs), LAMBDA_EXPRESSION(const Plato::OrdinalType & tDof)
                 {
                     tGradientU(tDof) += 2.0 * tFunctionWeight * (tFunctionValue - tFunctionGoldValue) 
diff --git a/src/elliptic/WeightedSumFunction.hpp b/src/elliptic/WeightedSumFunction.hpp
index bde46ce..afb1cdf 100644
--- a/src/elliptic/WeightedSumFunction.hpp
+++ b/src/elliptic/WeightedSumFunction.hpp
@@ -222,7 +222,7 @@ public:
         for (Plato::OrdinalType tFunctionIndex = 0; tFunctionIndex < mScalarFunctionBaseContainer.size(); ++tFunctionIndex)
         {
             const Plato::Scalar tFunctionWeight = mFunctionWeights[tFunctionIndex];
-            Plato::ScalarVector tFunctionGradU = mScalarFunctionBaseContainer[tFunctionIndex]->gradient_u(aSolution, aControl, aTimeStep);
+            Plato::ScalarVector tFunctionGradU = mScalarFunctionBaseContainer[tFunctionIndex]->gradient_u(aSolution, aControl, aStepIndex, aTimeStep);
             Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumDofs), LAMBDA_EXPRESSION(const Plato::OrdinalType & tDof)
             {
                 tGradientU(tDof) += tFunctionWeight * tFunctionGradU(tDof);
-- 
2.43.0


From 2c67bf944b89b60da2fd51d6c8dfc3e9e4b791e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:33 +0000
Subject: [PATCH 30/52] fix: read the least-squares criterion from the Criteria
 list

---
 src/elliptic/LeastSquaresFunction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic/LeastSquaresFunction.hpp b/src/elliptic/LeastSquaresFunction.hpp
index 04faf39..a5e2c60 100644
--- a/src/elliptic/LeastSquaresFunction.hpp
+++ b/src/elliptic/LeastSquaresFunction.hpp
@@ -62,7 +62,7 @@ private:
         mFunctionGoldValues.clear();
         mFunctionNormalization.clear();
 
-        auto tFunctionParams = aProblemParams.sublist("Criterial").sublist(mFunctionName);
+        auto tFunctionParams = aProblemParams.sublist("Criteria").sublist(mFunctionName);
 
         auto tFunctionNamesArray = tFunctionParams.get<Teuchos::Array<std::string>>("Functions");
         auto tFunctionWeightsArray = tFunctionParams.get<Teuchos::Array<Plato::Scalar>>("Weights");
-- 
2.43.0


From 183b07fceb2560df8605c4240b81e6e4fc8fcfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:47 +0000
Subject: [PATCH 31/52] fix: read elliptic mass properties from the Criteria
 and Material Models lists

---
 src/elliptic/MassPropertiesFunction.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/MassPropertiesFunction.hpp b/src/elliptic/MassPropertiesFunction.hpp
index 13f5f30..8b6255c 100644
--- a/src/elliptic/MassPropertiesFunction.hpp
+++ b/src/elliptic/MassPropertiesFunction.hpp
@@ -75,7 +75,7 @@ private:
             auto tMaterialModelsInputs = aInputParams.get<Teuchos::ParameterList>("Material Models");
             if( tMaterialModelsInputs.isSublist(tDomain.getMaterialName()) )
             {
-                auto tMaterialModelInputs = aInputParams.sublist(tDomain.getMaterialName());
+                auto tMaterialModelInputs = tMaterialModelsInputs.sublist(tDomain.getMaterialName());
                 mMaterialDensities[tName] = tMaterialModelInputs.get<Plato::Scalar>("Density", 1.0);
             }
         }
@@ -93,7 +93,7 @@ private:
               Teuchos::ParameterList & aInputParams
     )
     {
-        auto tProblemFunctionName = aInputParams.sublist(mFunctionName);
+        auto tProblemFunctionName = aInputParams.sublist("Criteria").sublist(mFunctionName);
 
         auto tPropertyNamesTeuchos      = tProblemFunctionName.get<Teuchos::Array<std::string>>("Properties");
         auto tPropertyWeightsTeuchos    = tProblemFunctionName.get<Teuchos::Array<Plato::Scalar>>("Weights");
-- 
2.43.0


From 499025b9847e4affa2e5272f03162de9a197aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:47 +0000
Subject: [PATCH 32/52] fix: output the electric displacement, not the stress,
 as edisp

---
 src/elliptic/InternalElectroelasticEnergy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic/InternalElectroelasticEnergy.hpp b/src/elliptic/InternalElectroelasticEnergy.hpp
index 2806db0..b41b912 100644
--- a/src/elliptic/InternalElectroelasticEnergy.hpp
+++ b/src/elliptic/InternalElectroelasticEnergy.hpp
@@ -161,7 +161,7 @@ class InternalElectroelasticEnergy :
 
      if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStrain, "strain", mSpatialDomain);
      if( std::count(mPlottable.begin(),mPlottable.end(),"stress") ) toMap(mDataMap, tStress, "stress", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"edisp" ) ) toMap(mDataMap, tStress, "edisp" , mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"edisp" ) ) toMap(mDataMap, tEdisp, "edisp" , mSpatialDomain);
 
     }
 };
-- 
2.43.0


From 4b92e1a980dde4fc42ad8057438056fe5e39eef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:15 +0000
Subject: [PATCH 33/52] fix: the solution criterion depends on the last step's
 state only

---
 src/elliptic/SolutionFunction.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/elliptic/SolutionFunction.hpp b/src/elliptic/SolutionFunction.hpp
index 9162333..14a981c 100644
--- a/src/elliptic/SolutionFunction.hpp
+++ b/src/elliptic/SolutionFunction.hpp
@@ -248,6 +248,13 @@ public:
         const Plato::OrdinalType tNumDofs = mNumDofsPerNode * mNumNodes;
         Plato::ScalarVector tGradientU ("gradient control", tNumDofs);
         
+        // only the state at the last step contributes to the value
+        const Plato::OrdinalType tLastIndex = aSolution.State.extent(0) - 1;
+        if( aStepIndex != tLastIndex )
+        {
+            return tGradientU;
+        }
+
         auto tState = Kokkos::subview(aSolution.State, aStepIndex, Kokkos::ALL());
 
         auto& tNodeSets = mSpatialModel.MeshSets[Omega_h::NODE_SET];
-- 
2.43.0


From 901bf3b752f2704d7244e2eae952f0fd253ce400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:48 +0000
Subject: [PATCH 34/52] fix: thermal flux criteria and heat equation used no
 temperature-dependent conductivity

---
 src/elliptic/FluxPNorm.hpp              | 12 +++++++++++-
 src/elliptic/InternalThermalEnergy.hpp  | 14 +++++++++++++-
 src/parabolic/HeatEquationResidual.hpp  |  6 +++---
 src/parabolic/InternalThermalEnergy.hpp | 12 +++++++++++-
 4 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/elliptic/FluxPNorm.hpp b/src/elliptic/FluxPNorm.hpp
index 7ad4c0a..fedd2e1 100644
--- a/src/elliptic/FluxPNorm.hpp
+++ b/src/elliptic/FluxPNorm.hpp
@@ -5,6 +5,7 @@
 
 #include "ScalarGrad.hpp"
 #include "ThermalFlux.hpp"
+#include "InterpolateFromNodal.hpp"
 #include "VectorPNorm.hpp"
 #include "SimplexThermal.hpp"
 #include "ApplyWeighting.hpp"
@@ -37,6 +38,7 @@ class FluxPNorm :
     
     using Plato::Simplex<SpaceDim>::mNumNodesPerCell;
     using Plato::SimplexThermal<SpaceDim>::mNumDofsPerCell;
+    using Plato::SimplexThermal<SpaceDim>::mNumDofsPerNode;
 
     using Plato::Elliptic::AbstractScalarFunction<EvaluationType>::mSpatialDomain;
     using Plato::Elliptic::AbstractScalarFunction<EvaluationType>::mDataMap;
@@ -109,6 +111,13 @@ class FluxPNorm :
       Kokkos::View<ResultScalarType**, Plato::Layout, Plato::MemSpace>
         tflux("thermal flux",numCells,SpaceDim);
 
+      Plato::ScalarVectorT<StateScalarType>
+        temperature("Gauss point temperature",numCells);
+
+      Plato::InterpolateFromNodal<SpaceDim, mNumDofsPerNode> interpolateFromNodal;
+
+      auto basisFunctions    = mCubatureRule->getBasisFunctions();
+
       auto tQuadratureWeight = mCubatureRule->getCubWeight();
       auto& applyWeighting  = mApplyWeighting;
       auto exponent         = mExponent;
@@ -123,7 +132,8 @@ class FluxPNorm :
 
         // compute flux
         //
-        thermalFlux(aCellOrdinal, tflux, tgrad);
+        interpolateFromNodal(aCellOrdinal, basisFunctions, aState, temperature);
+        thermalFlux(aCellOrdinal, tflux, tgrad, temperature);
 
         // apply weighting
         //
diff --git a/src/elliptic/InternalThermalEnergy.hpp b/src/elliptic/InternalThermalEnergy.hpp
index 66990cc..711650d 100644
--- a/src/elliptic/InternalThermalEnergy.hpp
+++ b/src/elliptic/InternalThermalEnergy.hpp
@@ -5,6 +5,8 @@
 
 #include "ScalarGrad.hpp"
 #include "ThermalFlux.hpp"
+#include "InterpolateFromNodal.hpp"
+#include "LinearTetCubRuleDegreeOne.hpp"
 #include "ScalarProduct.hpp"
 #include "ApplyWeighting.hpp"
 #include "SimplexThermal.hpp"
@@ -40,6 +42,7 @@ class InternalThermalEnergy :
 
     using Plato::Simplex<mSpaceDim>::mNumNodesPerCell; /*!< number of nodes per cell */
     using Plato::SimplexThermal<mSpaceDim>::mNumDofsPerCell; /*!< number of degrees of freedom per cell */
+    using Plato::SimplexThermal<mSpaceDim>::mNumDofsPerNode; /*!< number of degrees of freedom per node */
 
     using Plato::Elliptic::AbstractScalarFunction<EvaluationType>::mSpatialDomain; /*!< mesh database */
     using Plato::Elliptic::AbstractScalarFunction<EvaluationType>::mDataMap; /*!< PLATO Analyze database */
@@ -123,6 +126,14 @@ class InternalThermalEnergy :
       Kokkos::View<ResultScalarType**, Plato::Layout, Plato::MemSpace>
         tThermalFlux("thermal flux", tNumCells, mSpaceDim);
 
+      Plato::ScalarVectorT<StateScalarType>
+        tTemperature("Gauss point temperature", tNumCells);
+
+      Plato::LinearTetCubRuleDegreeOne<mSpaceDim> tCubatureRule;
+      auto tBasisFunctions = tCubatureRule.getBasisFunctions();
+
+      Plato::InterpolateFromNodal<mSpaceDim, mNumDofsPerNode> tInterpolateFromNodal;
+
       auto tQuadratureWeight = mQuadratureWeight;
       auto tApplyWeighting  = mApplyWeighting;
       Kokkos::parallel_for(Kokkos::RangePolicy<int>(0, tNumCells), LAMBDA_EXPRESSION(const Plato::OrdinalType & aCellOrdinal)
@@ -136,7 +147,8 @@ class InternalThermalEnergy :
 
         // compute flux
         //
-        tComputeThermalFlux(aCellOrdinal, tThermalFlux, tThermalGrad);
+        tInterpolateFromNodal(aCellOrdinal, tBasisFunctions, aState, tTemperature);
+        tComputeThermalFlux(aCellOrdinal, tThermalFlux, tThermalGrad, tTemperature);
 
         // apply weighting
         //
diff --git a/src/parabolic/HeatEquationResidual.hpp b/src/parabolic/HeatEquationResidual.hpp
index bf3e0bc..f0f2bd2 100644
--- a/src/parabolic/HeatEquationResidual.hpp
+++ b/src/parabolic/HeatEquationResidual.hpp
@@ -157,7 +157,8 @@ class HeatEquationResidual :
     
         // compute flux
         //
-        tThermalFlux(tCellOrdinal, tFlux, tGrad);
+        tInterpolateFromNodal(tCellOrdinal, tBasisFunctions, aState, tTemperature);
+        tThermalFlux(tCellOrdinal, tFlux, tGrad, tTemperature);
     
         // apply weighting
         //
@@ -169,10 +170,9 @@ class HeatEquationResidual :
 
         // add capacitance terms
         
-        // compute temperature at gausspoints
+        // compute temperature rate at gausspoints
         //
         tInterpolateFromNodal(tCellOrdinal, tBasisFunctions, aStateDot, tTemperatureRate);
-        tInterpolateFromNodal(tCellOrdinal, tBasisFunctions, aState,    tTemperature    );
 
         // compute the time rate of internal thermal energy
         //
diff --git a/src/parabolic/InternalThermalEnergy.hpp b/src/parabolic/InternalThermalEnergy.hpp
index e38d4eb..b1d2713 100644
--- a/src/parabolic/InternalThermalEnergy.hpp
+++ b/src/parabolic/InternalThermalEnergy.hpp
@@ -3,6 +3,7 @@
 
 #include "ScalarGrad.hpp"
 #include "ThermalFlux.hpp"
+#include "InterpolateFromNodal.hpp"
 #include "ScalarProduct.hpp"
 #include "ApplyWeighting.hpp"
 #include "SimplexThermal.hpp"
@@ -41,6 +42,7 @@ class InternalThermalEnergy :
 
     using Plato::Simplex<mSpaceDim>::mNumNodesPerCell;
     using Plato::SimplexThermal<mSpaceDim>::mNumDofsPerCell;
+    using Plato::SimplexThermal<mSpaceDim>::mNumDofsPerNode;
 
     using Plato::Parabolic::AbstractScalarFunction<EvaluationType>::mSpatialDomain;
     using Plato::Parabolic::AbstractScalarFunction<EvaluationType>::mDataMap;
@@ -113,6 +115,13 @@ class InternalThermalEnergy :
       Kokkos::View<ResultScalarType**, Plato::Layout, Plato::MemSpace>
         tflux("thermal flux", tNumCells,mSpaceDim);
 
+      Plato::ScalarVectorT<StateScalarType>
+        temperature("Gauss point temperature", tNumCells);
+
+      Plato::InterpolateFromNodal<mSpaceDim, mNumDofsPerNode> interpolateFromNodal;
+
+      auto basisFunctions    = mCubatureRule->getBasisFunctions();
+
       auto tQuadratureWeight = mCubatureRule->getCubWeight();
       auto applyWeighting  = mApplyWeighting;
       Kokkos::parallel_for(Kokkos::RangePolicy<int>(0, tNumCells), LAMBDA_EXPRESSION(const int & aCellOrdinal)
@@ -126,7 +135,8 @@ class InternalThermalEnergy :
 
         // compute flux
         //
-        thermalFlux(aCellOrdinal, tflux, tgrad);
+        interpolateFromNodal(aCellOrdinal, basisFunctions, aState, temperature);
+        thermalFlux(aCellOrdinal, tflux, tgrad, temperature);
 
         // apply weighting
         //
-- 
2.43.0


From 1101294b59d683f5ef16f45b0dac087d89420cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:44 +0000
Subject: [PATCH 35/52] fix: nodal mass kept references to expression
 temporaries

---
 src/Plato_TopOptFunctors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Plato_TopOptFunctors.hpp b/src/Plato_TopOptFunctors.hpp
index 7c402ca..1ee0773 100644
--- a/src/Plato_TopOptFunctors.hpp
+++ b/src/Plato_TopOptFunctors.hpp
@@ -32,7 +32,7 @@ cell_mass(const Plato::OrdinalType & aCellOrdinal,
         ControlType tNodalMass = 0.0;
         for(Plato::OrdinalType tIndex_J = 0; tIndex_J < CellNumNodes; tIndex_J++)
         {
-            auto tValue = aBasisFunc(tIndex_I) * aBasisFunc(tIndex_J) * aCellControls(aCellOrdinal, tIndex_J);
+            ControlType tValue = aBasisFunc(tIndex_I) * aBasisFunc(tIndex_J) * aCellControls(aCellOrdinal, tIndex_J);
             tNodalMass += tValue;
         }
         tCellMass += tNodalMass;
-- 
2.43.0


From a70e16cb6de30f738f240bd86868511b506efe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:18 +0000
Subject: [PATCH 36/52] fix: transient mechanics plotted the stress as strain
 and velocity gradient

---
 src/hyperbolic/ElastomechanicsResidual.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hyperbolic/ElastomechanicsResidual.hpp b/src/hyperbolic/ElastomechanicsResidual.hpp
index c08b870..93ee29a 100644
--- a/src/hyperbolic/ElastomechanicsResidual.hpp
+++ b/src/hyperbolic/ElastomechanicsResidual.hpp
@@ -227,7 +227,7 @@ class TransientMechanicsResidual :
       }, "Compute Residual");
 
      if( std::count(mPlottable.begin(),mPlottable.end(),"stress") ) toMap(mDataMap, tStress, "stress", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStress, "strain", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStrain, "strain", mSpatialDomain);
 
       if( mBodyLoads != nullptr )
       {
@@ -333,8 +333,8 @@ class TransientMechanicsResidual :
       }, "Compute Residual");
 
      if( std::count(mPlottable.begin(),mPlottable.end(),"stress") ) toMap(mDataMap, tStress, "stress", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStress, "strain", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"velgrad") ) toMap(mDataMap, tStress, "velgrad", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStrain, "strain", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"velgrad") ) toMap(mDataMap, tVelGrad, "velgrad", mSpatialDomain);
 
       if( mBodyLoads != nullptr )
       {
-- 
2.43.0


From 87642022e1f51c503345f8226f56902bf0ec448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:18 +0000
Subject: [PATCH 37/52] fix: transient thermomechanics plot fields of one block
 overwrote those of the others

---
 src/parabolic/TransientThermomechResidual.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parabolic/TransientThermomechResidual.hpp b/src/parabolic/TransientThermomechResidual.hpp
index 0ce015c..16f5c5b 100644
--- a/src/parabolic/TransientThermomechResidual.hpp
+++ b/src/parabolic/TransientThermomechResidual.hpp
@@ -229,8 +229,8 @@ class TransientThermomechResidual :
 
       },"stress and flux divergence");
 
-      if(std::count(mPlotTable.begin(), mPlotTable.end(), "strain")) { Plato::toMap(mDataMap, tStrain, "strain"); }
-      if(std::count(mPlotTable.begin(), mPlotTable.end(), "stress")) { Plato::toMap(mDataMap, tStress, "stress"); }
+      if(std::count(mPlotTable.begin(), mPlotTable.end(), "strain")) { Plato::toMap(mDataMap, tStrain, "strain", mSpatialDomain); }
+      if(std::count(mPlotTable.begin(), mPlotTable.end(), "stress")) { Plato::toMap(mDataMap, tStress, "stress", mSpatialDomain); }
     }
 
     /**************************************************************************/
-- 
2.43.0


From 58e5bbe830b721eeb851fd061fd1229e58e3d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:18 +0000
Subject: [PATCH 38/52] fix: temperature average did not apply the quadrature
 weight to the cell volume

---
 src/parabolic/TemperatureAverage.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parabolic/TemperatureAverage.hpp b/src/parabolic/TemperatureAverage.hpp
index 8b72789..b5a9eb1 100644
--- a/src/parabolic/TemperatureAverage.hpp
+++ b/src/parabolic/TemperatureAverage.hpp
@@ -98,6 +98,7 @@ class TemperatureAverage :
       {
         ConfigScalarType tCellVolume(0.0);
         tComputeCellVolume(aCellOrdinal, aConfig, tCellVolume);
+        tCellVolume *= quadratureWeight;
 
         // compute temperature at Gauss points
         //
-- 
2.43.0


From 71078860e215cb1817692f47da161d302c2bbc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:17 +0000
Subject: [PATCH 39/52] fix: stabilized residual gradient_n used the spatial
 dimension as the row block size

---
 src/VectorFunctionVMS.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/VectorFunctionVMS.hpp b/src/VectorFunctionVMS.hpp
index b2ee93c..67ee088 100644
--- a/src/VectorFunctionVMS.hpp
+++ b/src/VectorFunctionVMS.hpp
@@ -893,7 +893,7 @@ public:
         //
         auto tMesh = mSpatialModel.Mesh;
         Teuchos::RCP<Plato::CrsMatrixType> tJacobianMat =
-                Plato::CreateBlockMatrix<Plato::CrsMatrixType, mNumSpatialDims, mNumNodeStateDofsPerNode>( &tMesh );
+                Plato::CreateBlockMatrix<Plato::CrsMatrixType, mNumStateDofsPerNode, mNumNodeStateDofsPerNode>( &tMesh );
 
         // create entry ordinal functor:
         // tJacobianMatEntryOrdinal(e, k, l) => G
@@ -904,12 +904,12 @@ public:
         //
         // Template parameters:
         //   mNumSpatialDims: Nv-1
-        //   mNumSpatialDims: Nd
+        //   mNumStateDofsPerNode: Nd
         //   mNumNodeStatePerNode:   Nn
         //
         // Note that the second two template parameters must match the block shape of the destination matrix, tJacobianMat
         //
-        Plato::BlockMatrixEntryOrdinal<mNumSpatialDims, mNumSpatialDims, mNumNodeStateDofsPerNode>
+        Plato::BlockMatrixEntryOrdinal<mNumSpatialDims, mNumStateDofsPerNode, mNumNodeStateDofsPerNode>
             tJacobianMatEntryOrdinal( tJacobianMat, &tMesh );
 
         // Assemble from the AD-typed result, tJacobian, into the POD-typed global matrix, tJacobianMat.
-- 
2.43.0


From 083228bffa2db14e8476ca95dc11b515738f36b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:17 +0000
Subject: [PATCH 40/52] fix: stabilized elastic energy left out the shear
 stress

---
 src/StabilizedElastostaticEnergy.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/StabilizedElastostaticEnergy.hpp b/src/StabilizedElastostaticEnergy.hpp
index 2fca5cc..41e6137 100644
--- a/src/StabilizedElastostaticEnergy.hpp
+++ b/src/StabilizedElastostaticEnergy.hpp
@@ -164,6 +164,10 @@ class StabilizedElastostaticEnergy :
         {
             tTotStress(cellOrdinal,i) = tDevStress(cellOrdinal,i) + tPressure(cellOrdinal);
         }
+        for( int i=mSpaceDim; i<mNumVoigtTerms; i++)
+        {
+            tTotStress(cellOrdinal,i) = tDevStress(cellOrdinal,i);
+        }
 
         // apply weighting
         //
-- 
2.43.0


From dc6cb9033b2f54eded9ae5fc9a24a7d55837fd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:26 +0000
Subject: [PATCH 41/52] fix: stabilized elastic energy ignored the penalty
 function of its criterion

---
 src/StabilizedMechanics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StabilizedMechanics.hpp b/src/StabilizedMechanics.hpp
index 1e43d07..4875a8d 100644
--- a/src/StabilizedMechanics.hpp
+++ b/src/StabilizedMechanics.hpp
@@ -116,7 +116,7 @@ struct FunctionFactory
     /******************************************************************************/
     {
         std::shared_ptr<Plato::Elliptic::AbstractScalarFunction<EvaluationType>> tOutput;
-        auto tPenaltyParams = aParamList.sublist(aFuncName).sublist("Penalty Function");
+        auto tPenaltyParams = aParamList.sublist("Criteria").sublist(aFuncName).sublist("Penalty Function");
         if( aFuncType == "Internal Elastic Energy" )
         {
             std::string tPenaltyType = tPenaltyParams.get<std::string>("Type", "SIMP");
-- 
2.43.0


From 191087461131677dab1862597b5aad1a0fdcd8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:52 +0000
Subject: [PATCH 42/52] fix: local residual of a multi-domain plasticity model
 is written to its own cells

---
 src/LocalVectorFunctionInc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LocalVectorFunctionInc.hpp b/src/LocalVectorFunctionInc.hpp
index cdff3f8..ff06586 100644
--- a/src/LocalVectorFunctionInc.hpp
+++ b/src/LocalVectorFunctionInc.hpp
@@ -374,7 +374,7 @@ public:
                                                    tLocalStateWS,  tPrevLocalStateWS,
                                                    tControlWS, tConfigWS, tResidualWS, aTimeStep);
 
-            Plato::flatten_vector_workset<mNumLocalDofsPerCell>(tNumCells, tResidualWS, tResidualVector);
+            Plato::flatten_vector_workset<mNumLocalDofsPerCell>(tDomain, tResidualWS, tResidualVector);
         }
         return tResidualVector;
     }
-- 
2.43.0


From 9677ebf274123b986fdc18de0865e311252beac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:52 +0000
Subject: [PATCH 43/52] fix: local residual's control and shape derivatives use
 the domain's own cells

---
 src/LocalVectorFunctionInc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LocalVectorFunctionInc.hpp b/src/LocalVectorFunctionInc.hpp
index ff06586..d41cc70 100644
--- a/src/LocalVectorFunctionInc.hpp
+++ b/src/LocalVectorFunctionInc.hpp
@@ -505,7 +505,7 @@ public:
             // Workset global state
             //
             Plato::ScalarMultiVectorT<StateScalar> tGlobalStateWS("State Workset", tNumCells, mNumGlobalDofsPerCell);
-            mWorksetBase.worksetState(aGlobalState, tGlobalStateWS);
+            mWorksetBase.worksetState(aGlobalState, tGlobalStateWS, tDomain);
 
             // Workset prev global state
             //
@@ -937,7 +937,7 @@ public:
                                                     tLocalStateWS,  tPrevLocalStateWS, 
                                                     tControlWS, tConfigWS, tJacobianWS, aTimeStep);
 
-            Plato::transform_ad_type_to_pod_3Dview<mNumLocalDofsPerCell, mNumNodesPerCell>(mNumCells, tJacobianWS, tOutputJacobian);
+            Plato::transform_ad_type_to_pod_3Dview<mNumLocalDofsPerCell, mNumNodesPerCell>(tDomain, tJacobianWS, tOutputJacobian);
         }
         return tOutputJacobian;
     }
-- 
2.43.0


From 55e1b5ed07927c4463788307874405564f5e73dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:52 +0000
Subject: [PATCH 44/52] fix: local plasticity residual and work criteria read
 Temperature Scaling where the global residual does

---
 src/ElasticWorkCriterion.hpp      | 2 +-
 src/J2PlasticityLocalResidual.hpp | 2 +-
 src/PlasticWorkCriterion.hpp      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ElasticWorkCriterion.hpp b/src/ElasticWorkCriterion.hpp
index f5cced7..bda9536 100644
--- a/src/ElasticWorkCriterion.hpp
+++ b/src/ElasticWorkCriterion.hpp
@@ -299,6 +299,7 @@ private:
             auto tMaterialName = mSpatialDomain.getMaterialName();
             Teuchos::ParameterList tMaterialsList = aProblemParams.sublist("Material Models");
             Teuchos::ParameterList tMaterialList  = tMaterialsList.sublist(tMaterialName);
+            mTemperatureScaling = tMaterialsList.get<Plato::Scalar>("Temperature Scaling", 1.0);
             this->parseIsotropicMaterialProperties(tMaterialList);
         }
         else
@@ -313,7 +314,6 @@ private:
     **************************************************************************/
     void parseIsotropicMaterialProperties(Teuchos::ParameterList &aMaterialParams)
     {
-        mTemperatureScaling = aMaterialParams.get<Plato::Scalar>("Temperature Scaling", 1.0);
         if (aMaterialParams.isSublist("Isotropic Linear Elastic"))
         {
             auto tElasticSubList = aMaterialParams.sublist("Isotropic Linear Elastic");
diff --git a/src/J2PlasticityLocalResidual.hpp b/src/J2PlasticityLocalResidual.hpp
index 5b2e21c..bd4e0cd 100644
--- a/src/J2PlasticityLocalResidual.hpp
+++ b/src/J2PlasticityLocalResidual.hpp
@@ -128,6 +128,7 @@ private:
         auto tMaterialName = mSpatialDomain.getMaterialName();
         Teuchos::ParameterList tMaterialParamLists = aInputParams.sublist("Material Models");
         Teuchos::ParameterList tMaterialParamList  = tMaterialParamLists.sublist(tMaterialName);
+        mTemperatureScaling = tMaterialParamLists.get<Plato::Scalar>("Temperature Scaling", 1.0);
         this->initializeIsotropicElasticMaterial(tMaterialParamList);
         this->initializeJ2Plasticity(tMaterialParamList);
     }
@@ -139,7 +140,6 @@ private:
     void initializeIsotropicElasticMaterial(Teuchos::ParameterList& aMaterialParams)
     {
 
-        mTemperatureScaling = aMaterialParams.get<Plato::Scalar>("Temperature Scaling", 1.0);
         if( aMaterialParams.isSublist("Isotropic Linear Elastic") )
         {
           auto tElasticSubList = aMaterialParams.sublist("Isotropic Linear Elastic");
diff --git a/src/PlasticWorkCriterion.hpp b/src/PlasticWorkCriterion.hpp
index aa901bd..d534682 100644
--- a/src/PlasticWorkCriterion.hpp
+++ b/src/PlasticWorkCriterion.hpp
@@ -301,6 +301,7 @@ private:
             auto tMaterialName = mSpatialDomain.getMaterialName();
             Teuchos::ParameterList tMaterialsList = aProblemParams.sublist("Material Models");
             Teuchos::ParameterList tMaterialList  = tMaterialsList.sublist(tMaterialName);
+            mTemperatureScaling = tMaterialsList.get<Plato::Scalar>("Temperature Scaling", 1.0);
             this->parseIsotropicMaterialProperties(tMaterialList);
         }
         else
@@ -315,7 +316,6 @@ private:
     **************************************************************************/
     void parseIsotropicMaterialProperties(Teuchos::ParameterList &aMaterialParams)
     {
-        mTemperatureScaling = aMaterialParams.get<Plato::Scalar>("Temperature Scaling", 1.0);
         if (aMaterialParams.isSublist("Isotropic Linear Elastic"))
         {
             auto tElasticSubList = aMaterialParams.sublist("Isotropic Linear Elastic");
-- 
2.43.0


From b653da34ae386db403e2bfe9e30c9159c35cb209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:09 +0000
Subject: [PATCH 45/52] fix: shape derivative of path-dependent criteria covers
 every node of the cell instead of throwing

---
 src/BasicLocalScalarFunction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BasicLocalScalarFunction.hpp b/src/BasicLocalScalarFunction.hpp
index c7eb1ed..d598e3d 100644
--- a/src/BasicLocalScalarFunction.hpp
+++ b/src/BasicLocalScalarFunction.hpp
@@ -657,7 +657,7 @@ public:
                                                     tControlWS, tConfigWS, tResultWS, aTimeStep);
 
             // convert AD types to POD types
-            Plato::transform_ad_type_to_pod_2Dview<mNumSpatialDims>(tDomain, tResultWS, tCriterionPartialWrtConfiguration);
+            Plato::transform_ad_type_to_pod_2Dview<mNumConfigDofsPerCell>(tDomain, tResultWS, tCriterionPartialWrtConfiguration);
         }
         Plato::blas2::scale(mMultiplier, tCriterionPartialWrtConfiguration);
 
-- 
2.43.0


From 8de892088845e4e4143e671a362d7c0050954f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:55 +0000
Subject: [PATCH 46/52] fix: steady shape gradient uses the transposed,
 homogeneously constrained adjoint system

---
 src/elliptic/Problem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/Problem.hpp b/src/elliptic/Problem.hpp
index 8787000..c07eb46 100644
--- a/src/elliptic/Problem.hpp
+++ b/src/elliptic/Problem.hpp
@@ -537,8 +537,8 @@ public:
             Plato::blas1::scale(static_cast<Plato::Scalar>(-1), tPartialCriterionWRT_State);
 
             // compute dgdu: partial of PDE wrt state
-            mJacobian = mPDE->gradient_u(tStatesSubView, aControl);
-            this->applyStateConstraints(mJacobian, tPartialCriterionWRT_State, 1.0);
+            mJacobian = mPDE->gradient_u_T(tStatesSubView, aControl);
+            this->applyAdjointConstraints(mJacobian, tPartialCriterionWRT_State);
 
             // adjoint problem uses transpose of global stiffness, but we're assuming the constrained
             // system is symmetric.
-- 
2.43.0


From b07dfe160e54e3073d06f299e3eb891a455200e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:18 +0000
Subject: [PATCH 47/52] fix: initial value of an unknown state variable is
 refused instead of written out of bounds

---
 src/parabolic/Problem.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index f7d7027..dad21ad 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -182,6 +182,10 @@ namespace Parabolic
                                tDofIndex = j;
                             }
                         }
+                        if (tDofIndex == -1)
+                        {
+                            THROWERR("Attempted to initialize state variable that doesn't exist.");
+                        }
                         mComputedFields->get(tFieldName, tDofIndex, tDofNames.size(), tInitialState);
                     }
                 }
-- 
2.43.0


From 5edd25d2f9b36b6da0dea51dbd4226cc5ece8b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:18 +0000
Subject: [PATCH 48/52] fix: repeated transient solution starts each step from
 zero, so prescribed values do not accumulate

---
 src/parabolic/Problem.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index dad21ad..096e68a 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -296,6 +296,10 @@ namespace Parabolic
               Plato::ScalarVector tState        = Kokkos::subview(mState,    tStepIndex,   Kokkos::ALL());
               Plato::ScalarVector tStateDot     = Kokkos::subview(mStateDot, tStepIndex,   Kokkos::ALL());
 
+              // constraints are applied as increments from zero, so discard any earlier solution
+              Plato::blas1::fill(static_cast<Plato::Scalar>(0.0), tState);
+              Plato::blas1::fill(static_cast<Plato::Scalar>(0.0), tStateDot);
+
               // inner loop for non-linear models
               for(Plato::OrdinalType tNewtonIndex = 0; tNewtonIndex < mNumNewtonSteps; tNewtonIndex++)
               {
-- 
2.43.0


From 83ee64f9c953fdcdee5403b48c1e97bb43753fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:18 +0000
Subject: [PATCH 49/52] fix: transient heat and thermomechanics gradients use
 the transposed, homogeneously constrained adjoint system

---
 src/parabolic/Problem.hpp        | 12 +++++------
 src/parabolic/VectorFunction.hpp | 37 ++++++++++++++++++++++++++------
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index 096e68a..046cd68 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -559,8 +559,8 @@ namespace Parabolic
                 // -F_{,u^k} += R_{v,u^k}^k F_{,v^k}
                 Plato::blas1::axpy(tR_vu, t_dFdv, t_dFdu);
 
-                // R_{u,u^k}
-                mJacobianU = mPDEConstraint.gradient_u(tU, tV, aControl, mTimeStep);
+                // R_{u,u^k}^T
+                mJacobianU = mPDEConstraint.gradient_u_T(tU, tV, aControl, mTimeStep);
 
                 // R_{u,v^k}
                 mJacobianV = mPDEConstraint.gradient_v(tU, tV, aControl, mTimeStep);
@@ -568,7 +568,7 @@ namespace Parabolic
                 // R_{u,u^k} -= R_{v,u^k} R_{u,v^k}
                 Plato::blas1::axpy(-tR_vu, mJacobianV->entries(), mJacobianU->entries());
 
-                this->applyStateConstraints(mJacobianU, t_dFdu, 1.0);
+                this->applyStateConstraints(mJacobianU, t_dFdu, 0.0); // homogeneous
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
@@ -716,8 +716,8 @@ namespace Parabolic
                 Plato::blas1::axpy(tR_vu, t_dFdv, t_dFdu);
 
 
-                // R_{u,u^k}
-                mJacobianU = mPDEConstraint.gradient_u(tU, tV, aControl, mTimeStep);
+                // R_{u,u^k}^T
+                mJacobianU = mPDEConstraint.gradient_u_T(tU, tV, aControl, mTimeStep);
 
                 // R_{u,v^k}
                 mJacobianV = mPDEConstraint.gradient_v(tU, tV, aControl, mTimeStep);
@@ -725,7 +725,7 @@ namespace Parabolic
                 // R_{u,u^k} -= R_{v,u^k} R_{u,v^k}
                 Plato::blas1::axpy(-tR_vu, mJacobianV->entries(), mJacobianU->entries());
 
-                this->applyStateConstraints(mJacobianU, t_dFdu, 1.0);
+                this->applyStateConstraints(mJacobianU, t_dFdu, 0.0); // homogeneous
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
diff --git a/src/parabolic/VectorFunction.hpp b/src/parabolic/VectorFunction.hpp
index 036df97..16e92f9 100644
--- a/src/parabolic/VectorFunction.hpp
+++ b/src/parabolic/VectorFunction.hpp
@@ -347,12 +347,13 @@ class VectorFunction : public Plato::WorksetBase<PhysicsT>
     }
 
     /**************************************************************************/
+    template<typename EntryOrdinalType>
     Teuchos::RCP<Plato::CrsMatrixType>
-    gradient_u(
+    assembleGradientU(
         const Plato::ScalarVector & aState,
         const Plato::ScalarVector & aStateDot,
         const Plato::ScalarVector & aControl,
-              Plato::Scalar         aTimeStep = 0.0
+              Plato::Scalar         aTimeStep
     ) const
     /**************************************************************************/
     {
@@ -402,8 +403,7 @@ class VectorFunction : public Plato::WorksetBase<PhysicsT>
             mGradientUFunctions.at(tName)->evaluate( tStateWS, tStateDotWS, tControlWS, tConfigWS, tGradient, aTimeStep );
 
             // assembly to return matrix
-            Plato::BlockMatrixEntryOrdinal<mNumSpatialDims, mNumDofsPerNode, mNumDofsPerNode>
-                tGradientMatEntryOrdinal( tGradientMat, &tMesh );
+            EntryOrdinalType tGradientMatEntryOrdinal( tGradientMat, &tMesh );
 
             auto tGradientMatEntries = tGradientMat->entries();
             Plato::WorksetBase<PhysicsT>::assembleJacobianFad
@@ -440,8 +440,7 @@ class VectorFunction : public Plato::WorksetBase<PhysicsT>
             mBoundaryLoadsGradientUFunction->evaluate_boundary(mSpatialModel, tStateWS, tStateDotWS, tControlWS, tConfigWS, tGradient, aTimeStep );
 
             // assembly to return matrix
-            Plato::BlockMatrixEntryOrdinal<mNumSpatialDims, mNumDofsPerNode, mNumDofsPerNode>
-                tGradientMatEntryOrdinal( tGradientMat, &tMesh );
+            EntryOrdinalType tGradientMatEntryOrdinal( tGradientMat, &tMesh );
 
             auto tGradientMatEntries = tGradientMat->entries();
             Plato::WorksetBase<PhysicsT>::assembleJacobianFad
@@ -451,6 +450,32 @@ class VectorFunction : public Plato::WorksetBase<PhysicsT>
         return tGradientMat;
     }
 
+    /**************************************************************************/
+    Teuchos::RCP<Plato::CrsMatrixType>
+    gradient_u(
+        const Plato::ScalarVector & aState,
+        const Plato::ScalarVector & aStateDot,
+        const Plato::ScalarVector & aControl,
+              Plato::Scalar         aTimeStep = 0.0
+    ) const
+    /**************************************************************************/
+    {
+        return this->template assembleGradientU<Plato::BlockMatrixEntryOrdinal<mNumSpatialDims, mNumDofsPerNode, mNumDofsPerNode>>(aState, aStateDot, aControl, aTimeStep);
+    }
+
+    /**************************************************************************/
+    Teuchos::RCP<Plato::CrsMatrixType>
+    gradient_u_T(
+        const Plato::ScalarVector & aState,
+        const Plato::ScalarVector & aStateDot,
+        const Plato::ScalarVector & aControl,
+              Plato::Scalar         aTimeStep = 0.0
+    ) const
+    /**************************************************************************/
+    {
+        return this->template assembleGradientU<Plato::BlockMatrixTransposeEntryOrdinal<mNumSpatialDims, mNumDofsPerNode>>(aState, aStateDot, aControl, aTimeStep);
+    }
+
     /**************************************************************************/
     Teuchos::RCP<Plato::CrsMatrixType>
     gradient_v(
-- 
2.43.0


From 8f74a6f7a24dfa2588f136797a1c7727ddb81c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:18 +0000
Subject: [PATCH 50/52] fix: one state name per dof, so initial states can be
 set in one and two dimensions

---
 src/hyperbolic/ElastomechanicsResidual.hpp    | 3 +++
 src/parabolic/TransientThermomechResidual.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/hyperbolic/ElastomechanicsResidual.hpp b/src/hyperbolic/ElastomechanicsResidual.hpp
index 93ee29a..4c026ae 100644
--- a/src/hyperbolic/ElastomechanicsResidual.hpp
+++ b/src/hyperbolic/ElastomechanicsResidual.hpp
@@ -87,6 +87,9 @@ class TransientMechanicsResidual :
         mBoundaryLoads        (nullptr)
     /**************************************************************************/
     {
+        // one name per spatial dimension
+        this->mDofNames.resize(SpaceDim);
+        this->mDofDotNames.resize(SpaceDim);
 
         // create material model and get stiffness
         //
diff --git a/src/parabolic/TransientThermomechResidual.hpp b/src/parabolic/TransientThermomechResidual.hpp
index 16f5c5b..a083450 100644
--- a/src/parabolic/TransientThermomechResidual.hpp
+++ b/src/parabolic/TransientThermomechResidual.hpp
@@ -101,6 +101,9 @@ class TransientThermomechResidual :
          mBoundaryFluxes       (nullptr)
     /**************************************************************************/
     {
+        // one displacement name per spatial dimension
+        this->mDofNames.erase(this->mDofNames.begin() + SpaceDim, this->mDofNames.begin() + 3);
+
         {
             Plato::ThermoelasticModelFactory<SpaceDim> mmfactory(aProblemParams);
             mMaterialModel = mmfactory.create(aSpatialDomain.getMaterialName());
-- 
2.43.0


From 2862ce2b23ff7eb44a092933db74ab4544470cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:10 +0000
Subject: [PATCH 51/52] fix: structural dynamics gradients use homogeneous
 constraints in the adjoint system

---
 src/hyperbolic/HyperbolicProblem.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/hyperbolic/HyperbolicProblem.hpp b/src/hyperbolic/HyperbolicProblem.hpp
index 4e640f5..741e1a1 100644
--- a/src/hyperbolic/HyperbolicProblem.hpp
+++ b/src/hyperbolic/HyperbolicProblem.hpp
@@ -255,6 +255,24 @@ namespace Plato
                 Plato::applyConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues);
             }
         }
+
+        /******************************************************************************/
+        void applyAdjointConstraints(
+          const Teuchos::RCP<Plato::CrsMatrixType> & aMatrix,
+          const Plato::ScalarVector & aVector
+        )
+        /******************************************************************************/
+        {
+            // constraints are homogeneous in the adjoint problem
+            if(mJacobianU->isBlockMatrix())
+            {
+                Plato::applyBlockConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues, /*scale=*/ 0.0);
+            }
+            else
+            {
+                Plato::applyConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues, /*scale=*/ 0.0);
+            }
+        }
         void applyBoundaryLoads(const Plato::ScalarVector & aForce){}
         /******************************************************************************//**
          * @brief Update physics-based parameters within optimization iterations
@@ -585,7 +603,7 @@ namespace Plato
                 // R_{u,u^k} -= R_{a,u^k} R_{u,a^k}
                 Plato::blas1::axpy(-tR_au, mJacobianA->entries(), mJacobianU->entries());
 
-                this->applyConstraints(mJacobianU, t_dFdu);
+                this->applyAdjointConstraints(mJacobianU, t_dFdu);
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
@@ -781,7 +799,7 @@ namespace Plato
                 // R_{u,u^k} -= R_{a,u^k} R_{u,a^k}
                 Plato::blas1::axpy(-tR_au, mJacobianA->entries(), mJacobianU->entries());
 
-                this->applyConstraints(mJacobianU, t_dFdu);
+                this->applyAdjointConstraints(mJacobianU, t_dFdu);
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
-- 
2.43.0


From 88a0130fe71f6d16f0587006abc3ea87a61cd71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:10 +0000
Subject: [PATCH 52/52] fix: adjoint of structural dynamics evaluates loads at
 the time of their step

---
 src/hyperbolic/HyperbolicProblem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperbolic/HyperbolicProblem.hpp b/src/hyperbolic/HyperbolicProblem.hpp
index 741e1a1..29c81e8 100644
--- a/src/hyperbolic/HyperbolicProblem.hpp
+++ b/src/hyperbolic/HyperbolicProblem.hpp
@@ -508,7 +508,7 @@ namespace Plato
             auto t_dFdz = aCriterion->gradient_z(tSolution, aControl, mTimeStep);
 
             auto tLastStepIndex = mNumSteps - 1;
-            Plato::Scalar tCurrentTime(mTimeStep*mNumSteps);
+            Plato::Scalar tCurrentTime(mTimeStep*tLastStepIndex);
             for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--)
             {
                 auto tU = Kokkos::subview(mDisplacement, tStepIndex, Kokkos::ALL());
@@ -704,7 +704,7 @@ namespace Plato
             auto t_dFdx = aCriterion->gradient_x(tSolution, aControl, mTimeStep);
 
             auto tLastStepIndex = mNumSteps - 1;
-            Plato::Scalar tCurrentTime(mTimeStep*mNumSteps);
+            Plato::Scalar tCurrentTime(mTimeStep*tLastStepIndex);
             for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--) {
 
                 auto tU = Kokkos::subview(mDisplacement, tStepIndex, Kokkos::ALL());
-- 
2.43.0

