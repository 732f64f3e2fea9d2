From 2f89517c93c303312d41e581ee7c863c8b74f1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 01/47] fix: let NF_THROW stream its message so that the
 NF_ASSERT_THROW family compiles

---
 include/NeoFOAM/core/error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/core/error.hpp b/include/NeoFOAM/core/error.hpp
index d169dd1..9769ae2 100644
--- a/include/NeoFOAM/core/error.hpp
+++ b/include/NeoFOAM/core/error.hpp
@@ -126,7 +126,7 @@ private:
  */
 #define NF_THROW(message)                                                                          \
     throw NeoFOAM::NeoFOAMException(                                                               \
-        (std::stringstream() << NF_ERROR_MESSAGE(std::string(message))).str()                      \
+        (std::stringstream() << NF_ERROR_MESSAGE(message)).str()                                   \
     )
 
 /**
-- 
2.43.0


From ba0540fbafe7a493cbebdc972eceecb92c9c6683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 02/47] fix: release the zero-sized allocation of an empty
 field when it is resized

---
 include/NeoFOAM/fields/field.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/field.hpp b/include/NeoFOAM/fields/field.hpp
index a7dc24b..f5b3b00 100644
--- a/include/NeoFOAM/fields/field.hpp
+++ b/include/NeoFOAM/fields/field.hpp
@@ -318,8 +318,13 @@ public:
         }
         else
         {
+            // an empty field can still own a zero-sized allocation
             std::visit(
-                [&ptr, size](const auto& exec) { ptr = exec.alloc(size * sizeof(ValueType)); },
+                [this, &ptr, size](const auto& exec)
+                {
+                    exec.free(this->data_);
+                    ptr = exec.alloc(size * sizeof(ValueType));
+                },
                 exec_
             );
         }
-- 
2.43.0


From 976fb8f71a984d2f2b4db2e87d16aa61fd12b5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 03/47] fix: start serial reductions from the identity like the
 other executors

---
 include/NeoFOAM/core/parallelAlgorithms.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/NeoFOAM/core/parallelAlgorithms.hpp b/include/NeoFOAM/core/parallelAlgorithms.hpp
index dac7712..49e250a 100644
--- a/include/NeoFOAM/core/parallelAlgorithms.hpp
+++ b/include/NeoFOAM/core/parallelAlgorithms.hpp
@@ -112,6 +112,15 @@ void parallelReduce(
     auto [start, end] = range;
     if constexpr (std::is_same<std::remove_reference_t<Executor>, SerialExecutor>::value)
     {
+        // as Kokkos::parallel_reduce does, start from the identity instead of the passed value
+        if constexpr (Kokkos::is_reducer<T>::value)
+        {
+            value.init(value.reference());
+        }
+        else
+        {
+            value = T {};
+        }
         for (size_t i = start; i < end; i++)
         {
             if constexpr (Kokkos::is_reducer<T>::value)
@@ -149,6 +158,15 @@ void parallelReduce(
 {
     if constexpr (std::is_same<std::remove_reference_t<Executor>, SerialExecutor>::value)
     {
+        // as Kokkos::parallel_reduce does, start from the identity instead of the passed value
+        if constexpr (Kokkos::is_reducer<T>::value)
+        {
+            value.init(value.reference());
+        }
+        else
+        {
+            value = T {};
+        }
         size_t fieldSize = field.size();
         for (size_t i = 0; i < fieldSize; i++)
         {
-- 
2.43.0


From f8bd9af69bf979516162424bb2f6d6e0f6c375ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 04/47] fix: scaling a vector by one of its own components

---
 include/NeoFOAM/core/primitives/vector.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/core/primitives/vector.hpp b/include/NeoFOAM/core/primitives/vector.hpp
index f366a7e..d90c161 100644
--- a/include/NeoFOAM/core/primitives/vector.hpp
+++ b/include/NeoFOAM/core/primitives/vector.hpp
@@ -133,9 +133,10 @@ public:
     KOKKOS_INLINE_FUNCTION
     Vector& operator*=(const scalar& rhs)
     {
-        cmpts_[0] *= rhs;
-        cmpts_[1] *= rhs;
-        cmpts_[2] *= rhs;
+        const scalar factor = rhs; // rhs can refer to a component of this vector
+        cmpts_[0] *= factor;
+        cmpts_[1] *= factor;
+        cmpts_[2] *= factor;
         return *this;
     }
 
-- 
2.43.0


From e9a9934571cec42e9c5d59896f51ddbe2a825bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 05/47] fix: boundary fields copied to another executor report
 that executor

---
 include/NeoFOAM/fields/boundaryFields.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/boundaryFields.hpp b/include/NeoFOAM/fields/boundaryFields.hpp
index 7ac3584..4b48b76 100644
--- a/include/NeoFOAM/fields/boundaryFields.hpp
+++ b/include/NeoFOAM/fields/boundaryFields.hpp
@@ -49,7 +49,7 @@ public:
      * @param rhs The boundaryFields object to be copied.
      */
     BoundaryFields(const Executor& exec, const BoundaryFields<T>& rhs)
-        : exec_(rhs.exec_), value_(exec, rhs.value_), refValue_(exec, rhs.refValue_),
+        : exec_(exec), value_(exec, rhs.value_), refValue_(exec, rhs.refValue_),
           valueFraction_(exec, rhs.valueFraction_), refGrad_(exec, rhs.refGrad_),
           boundaryTypes_(exec, rhs.boundaryTypes_), offset_(exec, rhs.offset_),
           nBoundaries_(rhs.nBoundaries_), nBoundaryFaces_(rhs.nBoundaryFaces_)
-- 
2.43.0


From e2df3167dfc1628c2553dd6e86ce5637e3cb9e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 06/47] fix: read the patch offsets of boundary fields through
 the host

---
 include/NeoFOAM/fields/boundaryFields.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/boundaryFields.hpp b/include/NeoFOAM/fields/boundaryFields.hpp
index 4b48b76..7a1c97a 100644
--- a/include/NeoFOAM/fields/boundaryFields.hpp
+++ b/include/NeoFOAM/fields/boundaryFields.hpp
@@ -133,7 +133,10 @@ public:
      */
     std::pair<localIdx, localIdx> range(localIdx patchId) const
     {
-        return {offset_.data()[patchId], offset_.data()[patchId + 1]};
+        // the offsets can be in device memory
+        const auto hostOffset = offset_.copyToHost();
+        const auto offsets = hostOffset.view();
+        return {offsets[patchId], offsets[patchId + 1]};
     }
 
 private:
-- 
2.43.0


From 4a06a45ac7e4bbf8d1553600cb9c5c7b91ff4e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 07/47] fix: upwind interpolation computes its weights instead
 of leaving them unset

---
 .../cellCentred/interpolation/upwind.hpp          | 10 +++++++++-
 .../cellCentred/interpolation/upwind.cpp          | 15 +++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp b/include/NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp
index 1e5979e..e789113 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp
@@ -35,6 +35,14 @@ void computeUpwindInterpolation(
     SurfaceField<ValueType>& dst
 );
 
+/* @brief computional kernel for the weights of the upwind interpolation, which are 1 if the flux
+** leaves the owner cell and 0 if it enters it, and 1 on the boundary
+**
+**@param flux the flux which determines the upwind direction
+**@param weight the weights
+*/
+void computeUpwindWeights(const SurfaceField<scalar>& flux, SurfaceField<scalar>& weight);
+
 template<typename ValueType>
 class Upwind : public SurfaceInterpolationFactory<ValueType>::template Register<Upwind<ValueType>>
 {
@@ -80,7 +88,7 @@ public:
         SurfaceField<scalar>& weight
     ) const override
     {
-        // geometryScheme_->weights(flux, src, weight);
+        computeUpwindWeights(flux, weight);
     }
 
     std::unique_ptr<SurfaceInterpolationFactory<ValueType>> clone() const override
diff --git a/src/finiteVolume/cellCentred/interpolation/upwind.cpp b/src/finiteVolume/cellCentred/interpolation/upwind.cpp
index 1cdd94a..b4ff555 100644
--- a/src/finiteVolume/cellCentred/interpolation/upwind.cpp
+++ b/src/finiteVolume/cellCentred/interpolation/upwind.cpp
@@ -55,6 +55,21 @@ void computeUpwindInterpolation(
     );
 }
 
+void computeUpwindWeights(const SurfaceField<scalar>& flux, SurfaceField<scalar>& weight)
+{
+    auto [weightS, fluxS] = spans(weight.internalField(), flux.internalField());
+    const size_t nInternalFaces = weight.mesh().nInternalFaces();
+
+    NeoFOAM::parallelFor(
+        weight.exec(),
+        {0, weightS.size()},
+        KOKKOS_LAMBDA(const size_t facei) {
+            weightS[facei] = (facei < nInternalFaces && fluxS[facei] < 0) ? 0.0 : 1.0;
+        },
+        "computeUpwindWeights"
+    );
+}
+
 #define NF_DECLARE_COMPUTE_IMP_UPW_INT(TYPENAME)                                                   \
     template void computeUpwindInterpolation<                                                      \
         TYPENAME>(const VolumeField<TYPENAME>&, const SurfaceField<scalar>&, const SurfaceField<scalar>&, SurfaceField<TYPENAME>&)
-- 
2.43.0


From 5dcfc36218ee89be00e6b8b23e6f8f82517ab0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 08/47] fix: GaussGreenDiv::div returning a field accumulated
 onto uninitialised memory

---
 .../NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp
index 26756c4..5c0984d 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp
@@ -90,6 +90,7 @@ public:
             this->mesh_,
             createCalculatedBCs<VolumeBoundary<ValueType>>(this->mesh_)
         );
+        fill(divPhi.internalField(), zero<ValueType>());
         computeDivExp<ValueType>(
             faceFlux, phi, surfaceInterpolation_, divPhi.internalField(), operatorScaling
         );
-- 
2.43.0


From 6e65720ae0d822d799f071c8497d433284d74a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 09/47] fix: explicit divergence of a vector field was silently
 dropped from expressions

---
 .../finiteVolume/cellCentred/operators/divOperator.hpp        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
index b0c0711..08c9de9 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
@@ -126,10 +126,10 @@ public:
           faceFlux_(faceFlux), divOperatorStrategy_(nullptr) {};
 
 
-    void explicitOperation(Field<scalar>& source) const
+    void explicitOperation(Field<ValueType>& source) const
     {
         NF_ASSERT(divOperatorStrategy_, "DivOperatorStrategy not initialized");
-        NeoFOAM::Field<NeoFOAM::scalar> tmpsource(source.exec(), source.size(), 0.0);
+        NeoFOAM::Field<ValueType> tmpsource(source.exec(), source.size(), zero<ValueType>());
         const auto operatorScaling = this->getCoefficient();
         divOperatorStrategy_->div(tmpsource, faceFlux_, this->getField(), operatorScaling);
         source += tmpsource;
-- 
2.43.0


From 27d5ebfbcf4969d8b707bf1c8eefb9fa9e455907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 10/47] fix: explicit Laplacian ignored the diffusivity

---
 .../cellCentred/operators/gaussGreenLaplacian.cpp   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index b022671..2db0aa7 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -32,8 +32,13 @@ void computeLaplacianExp(
         phi.boundaryField().refValue()
     );
 
-    const auto [result, faceArea, fnGrad, vol] =
-        spans(lapPhi, mesh.magFaceAreas(), faceNormalGrad.internalField(), mesh.cellVolumes());
+    const auto [result, sGamma, faceArea, fnGrad, vol] = spans(
+        lapPhi,
+        gamma.internalField(),
+        mesh.magFaceAreas(),
+        faceNormalGrad.internalField(),
+        mesh.cellVolumes()
+    );
 
 
     size_t nInternalFaces = mesh.nInternalFaces();
@@ -43,7 +48,7 @@ void computeLaplacianExp(
         exec,
         {0, nInternalFaces},
         KOKKOS_LAMBDA(const size_t i) {
-            ValueType flux = faceArea[i] * fnGrad[i];
+            ValueType flux = sGamma[i] * faceArea[i] * fnGrad[i];
             Kokkos::atomic_add(&result[static_cast<size_t>(owner[i])], flux);
             Kokkos::atomic_sub(&result[static_cast<size_t>(neighbour[i])], flux);
         }
@@ -54,7 +59,7 @@ void computeLaplacianExp(
         {nInternalFaces, fnGrad.size()},
         KOKKOS_LAMBDA(const size_t i) {
             size_t own = static_cast<size_t>(surfFaceCells[i - nInternalFaces]);
-            ValueType valueOwn = faceArea[i] * fnGrad[i];
+            ValueType valueOwn = sGamma[i] * faceArea[i] * fnGrad[i];
             Kokkos::atomic_add(&result[own], valueOwn);
         }
     );
-- 
2.43.0


From d8a655d177a720dd0d3ce836f2bd14f1650c2cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 11/47] fix: data race on cells with several boundary faces in
 implicit divergence and Laplacian

---
 .../cellCentred/operators/gaussGreenDiv.cpp      |  8 ++++++--
 .../operators/gaussGreenLaplacian.cpp            | 16 +++++++++-------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index cc23122..8d4a8a8 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -219,11 +219,15 @@ void computeDivImp(
             std::size_t rowOwnStart = matrix.rowOffs[own];
             scalar operatorScalingOwn = operatorScaling[own];
 
-            matrix.values[rowOwnStart + diagOffs[own]] +=
+            // a cell can own several boundary faces
+            ValueType diagContribution =
                 flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>();
             // TODO fix bc values
-            rhs[own] -= (flux * operatorScalingOwn * (valueFraction[bcfacei] * refValue[bcfacei]));
+            ValueType rhsContribution =
+                flux * operatorScalingOwn * (valueFraction[bcfacei] * refValue[bcfacei]);
             // + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei] / deltaCoeffs[facei]));
+            Kokkos::atomic_add(&matrix.values[rowOwnStart + diagOffs[own]], diagContribution);
+            Kokkos::atomic_sub(&rhs[own], rhsContribution);
         }
     );
 };
diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index 2db0aa7..157dcfd 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -168,13 +168,15 @@ void computeLaplacianImpl(
             std::size_t rowOwnStart = rowPtrs[own];
             scalar operatorScalingOwn = operatorScaling[own];
 
-            values[rowOwnStart + diagOffs[own]] -= flux * operatorScalingOwn
-                                                 * valueFraction[bcfacei] * deltaCoeffs[facei]
-                                                 * one<ValueType>();
-            rhs[own] -=
-                (flux * operatorScalingOwn
-                 * (valueFraction[bcfacei] * deltaCoeffs[facei] * refValue[bcfacei]
-                    + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]));
+            // a cell can own several boundary faces
+            ValueType diagContribution = flux * operatorScalingOwn * valueFraction[bcfacei]
+                                       * deltaCoeffs[facei] * one<ValueType>();
+            ValueType rhsContribution =
+                flux * operatorScalingOwn
+                * (valueFraction[bcfacei] * deltaCoeffs[facei] * refValue[bcfacei]
+                   + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]);
+            Kokkos::atomic_sub(&values[rowOwnStart + diagOffs[own]], diagContribution);
+            Kokkos::atomic_sub(&rhs[own], rhsContribution);
         }
     );
 }
-- 
2.43.0


From f94b9a9eb70a3f9ccc7325bc34296d208caa9b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 12/47] fix: implicit divergence dropped the contribution of
 fixed-gradient boundaries

---
 .../cellCentred/operators/gaussGreenDiv.cpp          | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index 8d4a8a8..952d66e 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -201,11 +201,12 @@ void computeDivImp(
         }
     );
 
-    auto [refGradient, value, valueFraction, refValue] = spans(
+    auto [refGradient, value, valueFraction, refValue, deltaCoeffs] = spans(
         phi.boundaryField().refGrad(),
         phi.boundaryField().value(),
         phi.boundaryField().valueFraction(),
-        phi.boundaryField().refValue()
+        phi.boundaryField().refValue(),
+        mesh.boundaryMesh().deltaCoeffs()
     );
 
     parallelFor(
@@ -222,10 +223,11 @@ void computeDivImp(
             // a cell can own several boundary faces
             ValueType diagContribution =
                 flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>();
-            // TODO fix bc values
             ValueType rhsContribution =
-                flux * operatorScalingOwn * (valueFraction[bcfacei] * refValue[bcfacei]);
-            // + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei] / deltaCoeffs[facei]));
+                flux * operatorScalingOwn
+                * (valueFraction[bcfacei] * refValue[bcfacei]
+                   + (1.0 - valueFraction[bcfacei]) * (1.0 / deltaCoeffs[bcfacei])
+                         * refGradient[bcfacei]);
             Kokkos::atomic_add(&matrix.values[rowOwnStart + diagOffs[own]], diagContribution);
             Kokkos::atomic_sub(&rhs[own], rhsContribution);
         }
-- 
2.43.0


From 806a45518e54d49ff2383624506c794eda296d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 13/47] fix: explicit time derivative ignored the coefficient
 of the operator

---
 src/finiteVolume/cellCentred/operators/ddtOperator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/finiteVolume/cellCentred/operators/ddtOperator.cpp b/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
index 35dea90..75a9e19 100644
--- a/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
+++ b/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
@@ -18,6 +18,7 @@ void DdtOperator<ValueType>::explicitOperation(Field<ValueType>& source, scalar,
 {
     const scalar dtInver = 1.0 / dt;
     const auto vol = this->getField().mesh().cellVolumes().view();
+    const auto operatorScaling = this->getCoefficient();
     auto [sourceSpan, field, oldField] =
         spans(source, this->field_.internalField(), oldTime(this->field_).internalField());
 
@@ -25,7 +26,8 @@ void DdtOperator<ValueType>::explicitOperation(Field<ValueType>& source, scalar,
         source.exec(),
         source.range(),
         KOKKOS_LAMBDA(const size_t celli) {
-            sourceSpan[celli] += dtInver * (field[celli] - oldField[celli]) * vol[celli];
+            sourceSpan[celli] +=
+                operatorScaling[celli] * dtInver * (field[celli] - oldField[celli]) * vol[celli];
         }
     );
 }
-- 
2.43.0


From ab71cff81e0bec3e3754a5fbdcdedaad9d4009de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 14/47] fix: source terms were silently dropped from
 expressions

---
 .../NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
index c06de33..6e7bbd0 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
@@ -21,6 +21,8 @@ class SourceTerm : public dsl::OperatorMixin<VolumeField<ValueType>>
 
 public:
 
+    using FieldValueType = ValueType;
+
     SourceTerm(
         dsl::Operator::Type termType,
         VolumeField<scalar>& coefficients,
-- 
2.43.0


From 4e55c372af4f0fe4611de74c2b2a17004a8c174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:39 +0000
Subject: [PATCH 15/47] fix: BoundaryPatchMixin::patchEnd returned the start of
 the patch

---
 .../finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp b/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
index 08db58e..773a561 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
@@ -42,7 +42,7 @@ public:
 
     label patchStart() const { return start_; };
 
-    label patchEnd() const { return start_; };
+    label patchEnd() const { return end_; };
 
     size_t patchSize() const { return static_cast<size_t>(end_ - start_); }
 
-- 
2.43.0


From 35737eb8c4376a6a39c835ecf5a0585a299400d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 16/47] fix: find matrix entries in rows whose columns are not
 sorted

---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index 848e01b..99bec43 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -55,7 +55,6 @@ struct CSRMatrixView
             {
                 return values[localCol];
             }
-            if (colIdxs[localCol] > j) break;
         }
         Kokkos::abort("Memory not allocated for CSR matrix component.");
         return values[values.size()]; // compiler warning suppression.
-- 
2.43.0


From 6c251bacaa4961514e0004958fb9815622b09d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 17/47] fix: copy a matrix to the requested executor

---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index 99bec43..f325053 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -179,7 +179,9 @@ public:
             return *this;
         }
         CSRMatrix<ValueType, IndexType> other(
-            values_.copyToHost(), colIdxs_.copyToHost(), rowOffs_.copyToHost()
+            values_.copyToExecutor(dstExec),
+            colIdxs_.copyToExecutor(dstExec),
+            rowOffs_.copyToExecutor(dstExec)
         );
         return other;
     }
-- 
2.43.0


From d4b503f05540e098b7443ad5e6cd5da54cdfa1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 18/47] fix: conversion of matrices and linear systems to other
 types

---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp    |  2 +-
 include/NeoFOAM/linearAlgebra/linearSystem.hpp | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index f325053..863edbd 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -230,7 +230,7 @@ convert(const Executor exec, const la::CSRMatrixView<const ValueTypeIn, const In
 {
     Field<IndexTypeOut> colIdxsTmp(exec, in.colIdxs.size());
     Field<IndexTypeOut> rowPtrsTmp(exec, in.rowOffs.size());
-    Field<ValueTypeOut> valuesTmp(exec, in.values.data(), in.values.size());
+    Field<ValueTypeOut> valuesTmp(exec, in.values.size());
 
     parallelFor(
         colIdxsTmp, KOKKOS_LAMBDA(const size_t i) { return IndexTypeOut(in.colIdxs[i]); }
diff --git a/include/NeoFOAM/linearAlgebra/linearSystem.hpp b/include/NeoFOAM/linearAlgebra/linearSystem.hpp
index b53c550..a7ec354 100644
--- a/include/NeoFOAM/linearAlgebra/linearSystem.hpp
+++ b/include/NeoFOAM/linearAlgebra/linearSystem.hpp
@@ -133,11 +133,14 @@ LinearSystem<ValueTypeOut, IndexTypeOut>
 convertLinearSystem(const LinearSystem<ValueTypeIn, IndexTypeIn>& ls)
 {
     auto exec = ls.exec();
-    Field<ValueTypeOut> convertedRhs(exec, ls.rhs().data(), ls.rhs().size());
+    Field<ValueTypeOut> convertedRhs(exec, ls.rhs().size());
+    auto rhs = ls.rhs().view();
+    parallelFor(
+        convertedRhs, KOKKOS_LAMBDA(const size_t i) { return ValueTypeOut(rhs[i]); }
+    );
     return {
-        convert<ValueTypeIn, IndexTypeIn, ValueTypeOut, IndexTypeOut>(exec, ls.view.matrix),
-        convertedRhs,
-        ls.sparsityPattern()
+        convert<ValueTypeIn, IndexTypeIn, ValueTypeOut, IndexTypeOut>(exec, ls.view().matrix),
+        convertedRhs
     };
 }
 
-- 
2.43.0


From e5e88585462452dae7a5ba1267dfca3fb059d263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 19/47] fix: field exchange between ranks compiles and works
 for fields on any executor

---
 include/NeoFOAM/mesh/unstructured/communicator.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/mesh/unstructured/communicator.hpp b/include/NeoFOAM/mesh/unstructured/communicator.hpp
index 81236a0..5e202c5 100644
--- a/include/NeoFOAM/mesh/unstructured/communicator.hpp
+++ b/include/NeoFOAM/mesh/unstructured/communicator.hpp
@@ -101,11 +101,13 @@ public:
         }
 
         CommBuffer_[commName]->initComm<valueType>(commName);
+        const auto hostField = field.copyToHost();
+        const auto hostView = hostField.view();
         for (size_t rank = 0; rank < mpiEnviron_.sizeRank(); ++rank)
         {
             auto rankBuffer = CommBuffer_[commName]->getSend<valueType>(rank);
             for (size_t data = 0; data < sendMap_[rank].size(); ++data)
-                rankBuffer[data] = field(static_cast<size_t>(sendMap_[rank][data].local_idx));
+                rankBuffer[data] = hostView[static_cast<size_t>(sendMap_[rank][data].local_idx)];
         }
         CommBuffer_[commName]->startComm();
     }
@@ -132,12 +134,15 @@ public:
         );
 
         CommBuffer_[commName]->waitComplete();
+        auto hostField = field.copyToHost();
+        auto hostView = hostField.view();
         for (size_t rank = 0; rank < mpiEnviron_.sizeRank(); ++rank)
         {
             auto rankBuffer = CommBuffer_[commName]->getReceive<valueType>(rank);
             for (size_t data = 0; data < receiveMap_[rank].size(); ++data)
-                field(static_cast<size_t>(receiveMap_[rank][data].local_idx)) = rankBuffer[data];
+                hostView[static_cast<size_t>(receiveMap_[rank][data].local_idx)] = rankBuffer[data];
         }
+        field = hostField.copyToExecutor(field.exec());
         CommBuffer_[commName]->finaliseComm();
         CommBuffer_[commName] = nullptr;
     }
-- 
2.43.0


From d44409e6ab467d361a6eb27dfc5f7810dbd83c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 20/47] fix: field exchange buffers stay in place while further
 exchanges are started

---
 include/NeoFOAM/mesh/unstructured/communicator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/mesh/unstructured/communicator.hpp b/include/NeoFOAM/mesh/unstructured/communicator.hpp
index 5e202c5..4e06e70 100644
--- a/include/NeoFOAM/mesh/unstructured/communicator.hpp
+++ b/include/NeoFOAM/mesh/unstructured/communicator.hpp
@@ -2,6 +2,7 @@
 // SPDX-FileCopyrightText: 2023 NeoFOAM authors
 #pragma once
 
+#include <deque>
 #include <vector>
 #include <unordered_map>
 #include <memory>
@@ -152,7 +153,7 @@ private:
     mpi::MPIEnvironment mpiEnviron_; /**< The MPI environment. */
     CommMap sendMap_;                /**< The rank send map. */
     CommMap receiveMap_;             /**< The rank receive map. */
-    std::vector<bufferType> buffers; /**< Communication buffers. */
+    std::deque<bufferType> buffers;  /**< Communication buffers, never moved while in use. */
     std::unordered_map<std::string, bufferType*>
         CommBuffer_; /**< The communication key to buffer map, nullptr indicates no assigned buffer.
                       */
-- 
2.43.0


From 60507b35f26b810095fe09dd840f07656ca6aa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 21/47] fix: adding an expression to itself read freed
 operators

---
 include/NeoFOAM/dsl/expression.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/NeoFOAM/dsl/expression.hpp b/include/NeoFOAM/dsl/expression.hpp
index b654e1b..5d85249 100644
--- a/include/NeoFOAM/dsl/expression.hpp
+++ b/include/NeoFOAM/dsl/expression.hpp
@@ -109,13 +109,16 @@ public:
 
     void addExpression(const Expression& equation)
     {
-        for (auto& oper : equation.temporalOperators_)
+        // NOTE the given equation can be this expression itself
+        const size_t nTemporal = equation.temporalOperators_.size();
+        const size_t nSpatial = equation.spatialOperators_.size();
+        for (size_t i = 0; i < nTemporal; ++i)
         {
-            temporalOperators_.push_back(oper);
+            temporalOperators_.push_back(equation.temporalOperators_[i]);
         }
-        for (auto& oper : equation.spatialOperators_)
+        for (size_t i = 0; i < nSpatial; ++i)
         {
-            spatialOperators_.push_back(oper);
+            spatialOperators_.push_back(equation.spatialOperators_[i]);
         }
     }
 
-- 
2.43.0


From d786d33f38a4c6fd6ad242e8289fdd2933cef44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 22/47] fix: hand the linear solver settings to the time
 integration

---
 include/NeoFOAM/dsl/solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/dsl/solver.hpp b/include/NeoFOAM/dsl/solver.hpp
index a99d241..3ff3267 100644
--- a/include/NeoFOAM/dsl/solver.hpp
+++ b/include/NeoFOAM/dsl/solver.hpp
@@ -54,7 +54,7 @@ void solve(
     {
         // integrate equations in time
         timeIntegration::TimeIntegration<FieldType> timeIntegrator(
-            fvSchemes.subDict("ddtSchemes"), fvSchemes
+            fvSchemes.subDict("ddtSchemes"), fvSolution
         );
         timeIntegrator.solve(exp, solution, t, dt);
     }
-- 
2.43.0


From febcbd6e3465331ce44bc8b657db810023d2075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 23/47] fix: implicit Euler ignored the explicit terms of the
 equation

---
 include/NeoFOAM/timeIntegration/backwardEuler.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/timeIntegration/backwardEuler.hpp b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
index b09aa6c..2425e82 100644
--- a/include/NeoFOAM/timeIntegration/backwardEuler.hpp
+++ b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
@@ -51,8 +51,6 @@ public:
         auto source = eqn.explicitOperation(solutionField.size());
         SolutionFieldType& oldSolutionField = finiteVolume::cellCentred::oldTime(solutionField);
 
-        // solutionField.internalField() = oldSolutionField.internalField() - source * dt;
-        // solutionField.correctBoundaryConditions();
         // solve sparse matrix system
         using ValueType = typename SolutionFieldType::ElementType;
 
@@ -65,9 +63,16 @@ public:
 
         eqn.implicitOperation(ls);
 
-        auto values = ls.matrix().values();
         eqn.implicitOperation(ls, t, dt);
 
+        // subtract the explicit source term from the rhs
+        auto [vol, expSource, rhs] = spans(solutionField.mesh().cellVolumes(), source, ls.rhs());
+        parallelFor(
+            solutionField.exec(),
+            {0, rhs.size()},
+            KOKKOS_LAMBDA(const size_t i) { rhs[i] -= expSource[i] * vol[i]; }
+        );
+
         auto solver = NeoFOAM::la::Solver(solutionField.exec(), this->solutionDict_);
         solver.solve(ls, solutionField.internalField());
 
-- 
2.43.0


From b6ed582908a6f4cc643c04694432b6f2ad4e8499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 24/47] fix: enforce the boundary conditions after implicit and
 Runge-Kutta solves

---
 include/NeoFOAM/dsl/solver.hpp                    | 1 +
 include/NeoFOAM/timeIntegration/backwardEuler.hpp | 1 +
 src/timeIntegration/rungeKutta.cpp                | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/NeoFOAM/dsl/solver.hpp b/include/NeoFOAM/dsl/solver.hpp
index 3ff3267..b44fca1 100644
--- a/include/NeoFOAM/dsl/solver.hpp
+++ b/include/NeoFOAM/dsl/solver.hpp
@@ -83,6 +83,7 @@ void solve(
 
         auto solver = NeoFOAM::la::Solver(solution.exec(), fvSolution);
         solver.solve(ls, solution.internalField());
+        solution.correctBoundaryConditions();
     }
 }
 
diff --git a/include/NeoFOAM/timeIntegration/backwardEuler.hpp b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
index 2425e82..cc991e8 100644
--- a/include/NeoFOAM/timeIntegration/backwardEuler.hpp
+++ b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
@@ -75,6 +75,7 @@ public:
 
         auto solver = NeoFOAM::la::Solver(solutionField.exec(), this->solutionDict_);
         solver.solve(ls, solutionField.internalField());
+        solutionField.correctBoundaryConditions();
 
         // check if executor is GPU
         if (std::holds_alternative<NeoFOAM::GPUExecutor>(eqn.exec()))
diff --git a/src/timeIntegration/rungeKutta.cpp b/src/timeIntegration/rungeKutta.cpp
index 9163cf7..d18ec72 100644
--- a/src/timeIntegration/rungeKutta.cpp
+++ b/src/timeIntegration/rungeKutta.cpp
@@ -51,6 +51,7 @@ void RungeKutta<SolutionFieldType>::solve(
 
     // Copy solution out. (Fence is in sundails free)
     NeoFOAM::sundials::sunNVectorToField(solution_.sunNVector(), solutionField.internalField());
+    solutionField.correctBoundaryConditions();
     oldSolutionField.internalField() = solutionField.internalField();
 }
 
-- 
2.43.0


From 16cdfc9c017114f77462d0de3d1407e485c4e9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 25/47] fix: assemble equations into the sparsity pattern their
 terms use

---
 include/NeoFOAM/dsl/solver.hpp                    | 7 +++++--
 include/NeoFOAM/timeIntegration/backwardEuler.hpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/NeoFOAM/dsl/solver.hpp b/include/NeoFOAM/dsl/solver.hpp
index b44fca1..c7066d0 100644
--- a/include/NeoFOAM/dsl/solver.hpp
+++ b/include/NeoFOAM/dsl/solver.hpp
@@ -63,11 +63,14 @@ void solve(
         // solve sparse matrix system
         using ValueType = typename FieldType::ElementType;
 
-        auto sparsity = NeoFOAM::finiteVolume::cellCentred::SparsityPattern(solution.mesh());
+        // NOTE the positions of the coefficients within a row can differ between two patterns of the
+        // same mesh, thus the operators and the linear system have to share the pattern
+        const auto sparsity =
+            NeoFOAM::finiteVolume::cellCentred::SparsityPattern::readOrCreate(solution.mesh());
         auto ls = la::createEmptyLinearSystem<
             ValueType,
             localIdx,
-            NeoFOAM::finiteVolume::cellCentred::SparsityPattern>(sparsity);
+            NeoFOAM::finiteVolume::cellCentred::SparsityPattern>(*sparsity);
 
         exp.implicitOperation(ls);
         auto expTmp = exp.explicitOperation(solution.mesh().nCells());
diff --git a/include/NeoFOAM/timeIntegration/backwardEuler.hpp b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
index cc991e8..d215e29 100644
--- a/include/NeoFOAM/timeIntegration/backwardEuler.hpp
+++ b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
@@ -55,11 +55,14 @@ public:
         using ValueType = typename SolutionFieldType::ElementType;
 
         // TODO decouple from fvcc specific implementation
-        auto sparsity = NeoFOAM::finiteVolume::cellCentred::SparsityPattern(solutionField.mesh());
+        // NOTE the positions of the coefficients within a row can differ between two patterns of the
+        // same mesh, thus the operators and the linear system have to share the pattern
+        const auto sparsity =
+            finiteVolume::cellCentred::SparsityPattern::readOrCreate(solutionField.mesh());
         auto ls = la::createEmptyLinearSystem<
             ValueType,
             localIdx,
-            finiteVolume::cellCentred::SparsityPattern>(sparsity);
+            finiteVolume::cellCentred::SparsityPattern>(*sparsity);
 
         eqn.implicitOperation(ls);
 
-- 
2.43.0


From a19ede3639be60695b58af662e6f73dac1827f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 26/47] fix: copy of a Runge-Kutta integrator can be used

---
 src/timeIntegration/rungeKutta.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/timeIntegration/rungeKutta.cpp b/src/timeIntegration/rungeKutta.cpp
index d18ec72..1a95cb2 100644
--- a/src/timeIntegration/rungeKutta.cpp
+++ b/src/timeIntegration/rungeKutta.cpp
@@ -7,18 +7,9 @@ namespace NeoFOAM::timeIntegration
 {
 
 template<typename SolutionFieldType>
-RungeKutta<SolutionFieldType>::RungeKutta(const RungeKutta<SolutionFieldType>& other)
-    : Base(other), solution_(other.solution_), initialConditions_(other.initialConditions_),
-      pdeExpr_(
-          other.pdeExpr_
-              ? std::make_unique<NeoFOAM::dsl::Expression<ValueType>>(other.pdeExpr_->exec())
-              : nullptr
-      )
+RungeKutta<SolutionFieldType>::RungeKutta(const RungeKutta<SolutionFieldType>& other) : Base(other)
 {
-    sunrealtype timeCurrent;
-    void* ark = reinterpret_cast<void*>(other.ODEMemory_.get());
-    ARKodeGetCurrentTime(ark, &timeCurrent);
-    initODEMemory(timeCurrent); // will finalise construction of the ode memory.
+    // the sundials objects of the copy are set up from its own state by its first solve.
 }
 
 template<typename SolutionFieldType>
-- 
2.43.0


From 1b41aa68664009a33d2614384c280950806eadcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 27/47] fix: Runge-Kutta integrator solves the given expression
 from the current state

---
 src/timeIntegration/rungeKutta.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/timeIntegration/rungeKutta.cpp b/src/timeIntegration/rungeKutta.cpp
index 1a95cb2..17795cc 100644
--- a/src/timeIntegration/rungeKutta.cpp
+++ b/src/timeIntegration/rungeKutta.cpp
@@ -24,10 +24,10 @@ void RungeKutta<SolutionFieldType>::solve(
     dsl::Expression<ValueType>& exp, SolutionFieldType& solutionField, scalar t, const scalar dt
 )
 {
-    // Setup sundials if required, load the current solution for temporal integration
+    // Setup sundials for the given expression, load the current solution for temporal integration
     SolutionFieldType& oldSolutionField =
         NeoFOAM::finiteVolume::cellCentred::oldTime(solutionField);
-    if (pdeExpr_ == nullptr) initSUNERKSolver(exp, oldSolutionField, t);
+    initSUNERKSolver(exp, oldSolutionField, t);
     NeoFOAM::sundials::fieldToSunNVector(oldSolutionField.internalField(), solution_.sunNVector());
     void* ark = reinterpret_cast<void*>(ODEMemory_.get());
 
-- 
2.43.0


From ce3862a7284702705acb07acf2afd60acfcca3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 28/47] fix: release the holder of the SUNContext

---
 include/NeoFOAM/timeIntegration/sundials.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/NeoFOAM/timeIntegration/sundials.hpp b/include/NeoFOAM/timeIntegration/sundials.hpp
index 5d8ba05..6c4b241 100644
--- a/include/NeoFOAM/timeIntegration/sundials.hpp
+++ b/include/NeoFOAM/timeIntegration/sundials.hpp
@@ -31,6 +31,7 @@ inline auto SUN_CONTEXT_DELETER = [](SUNContext* ctx)
     if (ctx != nullptr)
     {
         SUNContext_Free(ctx);
+        delete ctx;
     }
 };
 
-- 
2.43.0


From 73999551b4b24bd0f8e525d3484ecadcb2a5ca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:57 +0000
Subject: [PATCH 29/47] fix: NF_DINFO is one statement, so an unbraced branch
 or loop governs all of it

---
 include/NeoFOAM/core/info.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/NeoFOAM/core/info.hpp b/include/NeoFOAM/core/info.hpp
index bd212ec..269993f 100644
--- a/include/NeoFOAM/core/info.hpp
+++ b/include/NeoFOAM/core/info.hpp
@@ -27,8 +27,7 @@
  */
 #ifdef NF_DEBUG_MESSAGING
 #define NF_DINFO(message)                                                                          \
-    std::cout << std::endl << "[NF][" << __FILE__ << "::" << __LINE__ << "]: ";                    \
-    NF_INFO(message)
+    NF_INFO(std::endl << "[NF][" << __FILE__ << "::" << __LINE__ << "]: " << message)
 #else
 #define NF_DINFO(message) ((void)0)
 #endif
-- 
2.43.0


From 14f2016088a420d006ef5bcaccc5d58ed633abc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:19 +0000
Subject: [PATCH 30/47] fix: the PETSc context keeps its index lists on the
 heap

The lists have one entry per matrix coefficient; as variable-length arrays
they overflowed the stack for systems of some hundred thousand cells.
---
 include/NeoFOAM/linearAlgebra/petscSolverContext.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
index 52960c7..ae13f24 100644
--- a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
+++ b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
@@ -7,6 +7,8 @@
 
 #if NF_WITH_PETSC
 
+#include <vector>
+
 #include <Kokkos_Core.hpp>
 #include <petscvec_kokkos.hpp>
 #include <petscmat.h>
@@ -70,9 +72,9 @@ public:
     {
         std::size_t size = sys.matrix().values().size();
         std::size_t nrows = sys.rhs().size();
-        PetscInt colIdx[size];
-        PetscInt rowIdx[size];
-        PetscInt rhsIdx[nrows];
+        std::vector<PetscInt> colIdx(size);
+        std::vector<PetscInt> rowIdx(size);
+        std::vector<PetscInt> rhsIdx(nrows);
 
         // colIdx = sys.matrix().colIdxs().data();
 
@@ -134,8 +136,8 @@ public:
         }
         VecDuplicate(rhs_, &sol_);
 
-        VecSetPreallocationCOO(rhs_, nrows, rhsIdx);
-        MatSetPreallocationCOO(Amat_, size, colIdx, rowIdx);
+        VecSetPreallocationCOO(rhs_, nrows, rhsIdx.data());
+        MatSetPreallocationCOO(Amat_, size, colIdx.data(), rowIdx.data());
 
         KSPCreate(PETSC_COMM_WORLD, &ksp_);
         KSPSetFromOptions(ksp_);
-- 
2.43.0


From 612f03550cd3a580173b0ec443cf8173b1c5b823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:03 +0000
Subject: [PATCH 31/47] fix: PETSc solutions are copied from the host

VecGetArray hands out host memory also for vectors on a device, but the
copy into the field declared it to be memory of the field's executor; the
array was never given back.
---
 include/NeoFOAM/linearAlgebra/petsc.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/petsc.hpp b/include/NeoFOAM/linearAlgebra/petsc.hpp
index d5d748a..d03f6c5 100644
--- a/include/NeoFOAM/linearAlgebra/petsc.hpp
+++ b/include/NeoFOAM/linearAlgebra/petsc.hpp
@@ -111,11 +111,15 @@ public:
         PetscCallVoid(KSPSolve(ksp, rhs, sol));
 
 
-        PetscScalar* x_help = static_cast<PetscScalar*>(x.data());
-        VecGetArray(sol, &x_help);
+        // NOTE: VecGetArray provides the values on the host, whatever the type of the vector
+        PetscScalar* solHost = nullptr;
+        VecGetArray(sol, &solHost);
 
-        NeoFOAM::Field<NeoFOAM::scalar> x2(x.exec(), static_cast<scalar*>(x_help), nrows, x.exec());
+        NeoFOAM::Field<NeoFOAM::scalar> x2(
+            x.exec(), static_cast<scalar*>(solHost), nrows, SerialExecutor {}
+        );
         x = x2;
+        VecRestoreArray(sol, &solHost);
     }
 };
 
-- 
2.43.0


From 7c2f66f9af43fa6c9ea9f84286f4fd31261baa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:58 +0000
Subject: [PATCH 32/47] fix: Ginkgo and PETSc solvers can be cloned

clone() returned a null pointer, so that solving with a copied Solver
dereferenced it.
---
 include/NeoFOAM/linearAlgebra/ginkgo.hpp | 3 +--
 include/NeoFOAM/linearAlgebra/petsc.hpp  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/ginkgo.hpp b/include/NeoFOAM/linearAlgebra/ginkgo.hpp
index 7b2f279..dcf2ff8 100644
--- a/include/NeoFOAM/linearAlgebra/ginkgo.hpp
+++ b/include/NeoFOAM/linearAlgebra/ginkgo.hpp
@@ -64,8 +64,7 @@ public:
 
     virtual std::unique_ptr<SolverFactory> clone() const final
     {
-        // FIXME
-        return {};
+        return std::make_unique<GinkgoSolver>(*this);
     }
 
 private:
diff --git a/include/NeoFOAM/linearAlgebra/petsc.hpp b/include/NeoFOAM/linearAlgebra/petsc.hpp
index d03f6c5..d7f4ac4 100644
--- a/include/NeoFOAM/linearAlgebra/petsc.hpp
+++ b/include/NeoFOAM/linearAlgebra/petsc.hpp
@@ -70,8 +70,7 @@ public:
 
     virtual std::unique_ptr<SolverFactory> clone() const final
     {
-        // FIXME
-        return {};
+        return std::make_unique<petscSolver>(*this);
     }
 
 
-- 
2.43.0


From 89d3448ba843987c57eafd40b00d23d453cdd7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 33/47] fix: the assembled fvcc::Expression compiles

assemble() called an overload of implicitOperation that does not exist,
setReference() indexed a Field and operator& took the two members of a
linear system view for three; none of them could be instantiated.
---
 .../NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp   | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
index 5870777..8b4e74e 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
@@ -118,7 +118,9 @@ public:
             auto expSource = expr_.explicitOperation(psi_.mesh().nCells());
             auto expSourceSpan = expSource.view();
 
-            ls_ = expr_.implicitOperation();
+            fill(ls_.rhs(), zero<ValueType>());
+            fill(ls_.matrix().values(), zero<ValueType>());
+            expr_.implicitOperation(ls_);
             auto rhs = ls_.rhs().view();
             // we subtract the explicit source term from the rhs
             NeoFOAM::parallelFor(
@@ -159,7 +161,7 @@ public:
     {
         // TODO currently assumes that matrix is already assembled
         const auto diagOffset = sparsityPattern_->diagOffset().view();
-        const auto rowPtrs = ls_.matrix().rowPtrs();
+        const auto rowPtrs = ls_.matrix().rowPtrs().view();
         auto rhs = ls_.rhs().view();
         auto values = ls_.matrix().values().view();
         NeoFOAM::parallelFor(
@@ -199,7 +201,7 @@ operator&(const Expression<ValueType, IndexType> expr, const VolumeField<ValueTy
 
     auto [result, b, x] =
         spans(resultField.internalField(), expr.linearSystem().rhs(), psi.internalField());
-    const auto [values, colIdxs, rowPtrs] = expr.linearSystem().view();
+    const auto [values, colIdxs, rowPtrs] = expr.linearSystem().view().matrix;
 
     NeoFOAM::parallelFor(
         resultField.exec(),
-- 
2.43.0


From 9a9918d31e5be47850830628a55c80ab23a68c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 34/47] fix: fvcc::Expression::solve returns after the linear
 solve

It always ended the program, reporting that there is no linear solver,
after the system had been solved.
---
 include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
index 8b4e74e..00d3604 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
@@ -153,7 +153,6 @@ public:
             auto exec = psi_.exec();
             auto solver = NeoFOAM::la::Solver(exec, fvSolution_);
             solver.solve(ls_, psi_.internalField());
-            NF_ERROR_EXIT("No linear solver is available, build with -DNEOFOAM_WITH_GINKGO=ON");
         }
     }
 
-- 
2.43.0


From bccfd4a0f61ad5d5f4b004822da8d07ef6cf30c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:18 +0000
Subject: [PATCH 35/47] fix: fields can be multiplied by a scalar field
 whatever their values are

---
 include/NeoFOAM/fields/field.hpp              |  3 ++-
 include/NeoFOAM/fields/fieldFreeFunctions.hpp | 15 +++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/NeoFOAM/fields/field.hpp b/include/NeoFOAM/fields/field.hpp
index f5b3b00..ed0d6d4 100644
--- a/include/NeoFOAM/fields/field.hpp
+++ b/include/NeoFOAM/fields/field.hpp
@@ -429,7 +429,8 @@ private:
      * @brief Checks if two fields are the same size and have the same executor.
      * @param rhs The field to compare with.
      */
-    void validateOtherField(const Field<ValueType>& rhs) const
+    template<typename OtherType>
+    void validateOtherField(const Field<OtherType>& rhs) const
     {
         NF_DEBUG_ASSERT(size() == rhs.size(), "Fields are not the same size.");
         NF_DEBUG_ASSERT(exec() == rhs.exec(), "Executors are not the same.");
diff --git a/include/NeoFOAM/fields/fieldFreeFunctions.hpp b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
index bf14c75..7e337cc 100644
--- a/include/NeoFOAM/fields/fieldFreeFunctions.hpp
+++ b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
@@ -101,10 +101,8 @@ void scalarMul(Field<ValueType>& a, const scalar value)
 
 namespace detail
 {
-template<typename ValueType, typename BinaryOp>
-void fieldBinaryOp(
-    Field<ValueType>& a, const Field<std::type_identity_t<ValueType>>& b, BinaryOp op
-)
+template<typename ValueType, typename OtherType, typename BinaryOp>
+void fieldBinaryOp(Field<ValueType>& a, const Field<OtherType>& b, BinaryOp op)
 {
     NeoFOAM_ASSERT_EQUAL_LENGTH(a, b);
     auto viewA = a.view();
@@ -140,6 +138,15 @@ void mul(Field<ValueType>& a, const Field<std::type_identity_t<ValueType>>& b)
     );
 }
 
+template<typename ValueType>
+    requires(!std::is_same_v<ValueType, scalar>)
+void mul(Field<ValueType>& a, const Field<scalar>& b)
+{
+    detail::fieldBinaryOp(
+        a, b, KOKKOS_LAMBDA(ValueType va, scalar vb) { return va * vb; }
+    );
+}
+
 template<typename... Args>
 auto spans(Args&... fields)
 {
-- 
2.43.0


From d195a0fdb69857fb98b5f34c8bf237e24fcf501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:18 +0000
Subject: [PATCH 36/47] fix: comparing a field with a view compiles

---
 include/NeoFOAM/fields/fieldFreeFunctions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/fieldFreeFunctions.hpp b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
index 7e337cc..4f019de 100644
--- a/include/NeoFOAM/fields/fieldFreeFunctions.hpp
+++ b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
@@ -199,7 +199,8 @@ bool equal(const Field<T>& field, const Field<T>& field2)
 template<typename T>
 bool equal(const Field<T>& field, View<T> span2)
 {
-    auto hostView = field.copyToHost().view();
+    auto hostField = field.copyToHost();
+    auto hostView = hostField.view();
 
     if (hostView.size() != span2.size())
     {
-- 
2.43.0


From ef6c86ee04bd5d38c5e87137677d2d884cc0d287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:50 +0000
Subject: [PATCH 37/47] fix: GaussGreenGrad::grad does not depend on the
 previous content of its result

---
 src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp
index 9f0c586..5f44295 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp
@@ -12,7 +12,7 @@ namespace NeoFOAM::finiteVolume::cellCentred
 ** ie computes \sum_f \phi_f
 **
 ** @param[in] in - Field on which the gradient should be computed
-** @param[in,out] out - Field to hold the result
+** @param[out] out - Field to hold the result
 */
 void computeGrad(
     const VolumeField<scalar>& in,
@@ -27,6 +27,8 @@ void computeGrad(
     );
     surfInterp.interpolate(in, phif);
 
+    // the face contributions are summed up in the result
+    fill(out.internalField(), zero<Vector>());
     auto surfGradPhi = out.internalField().view();
 
     const auto [surfFaceCells, sBSf, surfPhif, surfOwner, surfNeighbour, faceAreaS, surfV] = spans(
@@ -84,7 +86,6 @@ VolumeField<Vector> GaussGreenGrad::grad(const VolumeField<scalar>& phi)
 {
     auto gradBCs = createCalculatedBCs<VolumeBoundary<Vector>>(phi.mesh());
     VolumeField<Vector> gradPhi = VolumeField<Vector>(phi.exec(), "gradPhi", phi.mesh(), gradBCs);
-    fill(gradPhi.internalField(), zero<Vector>());
     computeGrad(phi, surfaceInterpolation_, gradPhi);
     return gradPhi;
 }
-- 
2.43.0


From 3ad6fa870e742779bcbfa812973c70bee9a6cd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:50 +0000
Subject: [PATCH 38/47] fix: explicit div and laplacian do not depend on the
 previous content of their result

---
 src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp       | 3 +++
 src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index 952d66e..5de3399 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -111,6 +111,9 @@ void computeDivExp(
     // TODO: currently we just copy the boundary values over
     phif.boundaryField().value() = phi.boundaryField().value();
 
+    // the face contributions are summed up in the result
+    fill(divPhi, zero<ValueType>());
+
     size_t nInternalFaces = mesh.nInternalFaces();
     size_t nBoundaryFaces = mesh.nBoundaryFaces();
     computeDiv<ValueType>(
diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index 157dcfd..1931ca4 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -22,6 +22,9 @@ void computeLaplacianExp(
 
     SurfaceField<ValueType> faceNormalGrad = faceNormalGradient.faceNormalGrad(phi);
 
+    // the face contributions are summed up in the result
+    fill(lapPhi, zero<ValueType>());
+
     const auto [owner, neighbour, surfFaceCells] =
         spans(mesh.faceOwner(), mesh.faceNeighbour(), mesh.boundaryMesh().faceCells());
 
-- 
2.43.0


From 4a099e17eceb7f4c366dd4648a3f0eb0278216da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:21 +0000
Subject: [PATCH 39/47] fix: a divergence of vectors can be given its scheme

The constructor taking a ready-made scheme named the base class of scalar fields and did not compile for vectors.
---
 .../NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
index 08c9de9..33330a4 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
@@ -114,7 +114,7 @@ public:
         VolumeField<ValueType>& phi,
         std::unique_ptr<DivOperatorFactory<ValueType>> divOperatorStrategy
     )
-        : dsl::OperatorMixin<VolumeField<scalar>>(phi.exec(), dsl::Coeff(1.0), phi, termType),
+        : dsl::OperatorMixin<VolumeField<ValueType>>(phi.exec(), dsl::Coeff(1.0), phi, termType),
           faceFlux_(faceFlux), divOperatorStrategy_(std::move(divOperatorStrategy)) {};
 
     DivOperator(
-- 
2.43.0


From 2a5925321aa9f91d464bdc6d8356b0148d4222d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:47 +0000
Subject: [PATCH 40/47] fix: a failed Dictionary::insert must not leave an
 empty entry behind

---
 src/core/dictionary.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/dictionary.cpp b/src/core/dictionary.cpp
index 9ab0124..78c4de1 100644
--- a/src/core/dictionary.cpp
+++ b/src/core/dictionary.cpp
@@ -40,7 +40,11 @@ Dictionary::Dictionary(const std::initializer_list<std::pair<std::string, std::a
     }
 }
 
-void Dictionary::insert(const std::string& key, const std::any& value) { data_[key] = value; }
+void Dictionary::insert(const std::string& key, const std::any& value)
+{
+    // (a copy that fails must not leave an empty entry)
+    data_.insert_or_assign(key, value);
+}
 
 void Dictionary::remove(const std::string& key) { data_.erase(key); }
 
-- 
2.43.0


From 448019385d710ae6f53195fbb45396bfe7d000ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:47 +0000
Subject: [PATCH 41/47] fix: demangle leaked the buffer when copying the name
 failed

---
 src/core/demangle.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/demangle.cpp b/src/core/demangle.cpp
index 89619fc..e062c90 100644
--- a/src/core/demangle.cpp
+++ b/src/core/demangle.cpp
@@ -5,6 +5,7 @@
 #include <cxxabi.h> // for __cxa_demangle
 #endif
 #include <stdlib.h> // for free
+#include <memory>   // for std::unique_ptr
 
 #include "NeoFOAM/core/demangle.hpp"
 
@@ -16,10 +17,11 @@ std::string NeoFOAM::demangle(const char* name)
 #elif defined(__GNUC__)
     int status;
     char* demangled = abi::__cxa_demangle(name, nullptr, nullptr, &status);
+    // releases the buffer also if the copy into the result fails
+    const std::unique_ptr<char, decltype(&free)> buffer(demangled, &free);
     if (status == 0)
     {
         std::string result(demangled);
-        free(demangled);
         return result;
     }
     else
-- 
2.43.0


From 5bd0418053b20db86297b2964df7cef50236e71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:47 +0000
Subject: [PATCH 42/47] fix: a failed resize of an empty field left a dangling
 pointer

---
 include/NeoFOAM/fields/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/field.hpp b/include/NeoFOAM/fields/field.hpp
index ed0d6d4..d7fac25 100644
--- a/include/NeoFOAM/fields/field.hpp
+++ b/include/NeoFOAM/fields/field.hpp
@@ -322,8 +322,8 @@ public:
             std::visit(
                 [this, &ptr, size](const auto& exec)
                 {
-                    exec.free(this->data_);
                     ptr = exec.alloc(size * sizeof(ValueType));
+                    exec.free(this->data_);
                 },
                 exec_
             );
-- 
2.43.0


From 4d73c59484febece734ba66417e8f0bcd96de1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:47 +0000
Subject: [PATCH 43/47] fix: registerField left a half-registered field when
 completing it failed

---
 include/NeoFOAM/core/database/fieldCollection.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/NeoFOAM/core/database/fieldCollection.hpp b/include/NeoFOAM/core/database/fieldCollection.hpp
index 4e0b0e4..e071a4d 100644
--- a/include/NeoFOAM/core/database/fieldCollection.hpp
+++ b/include/NeoFOAM/core/database/fieldCollection.hpp
@@ -339,12 +339,13 @@ public:
             throw std::runtime_error("Document is not valid");
         }
 
+        // the field is completed first, so that no half-registered field is left if that fails
+        FieldType& newField = doc.field<FieldType>();
+        newField.key = doc.id();
+        newField.fieldCollectionName = name();
+
         std::string key = insert(doc);
-        FieldDocument& fd = fieldDoc(key);
-        FieldType& field = fd.field<FieldType>();
-        field.key = key;
-        field.fieldCollectionName = name();
-        return field;
+        return fieldDoc(key).field<FieldType>();
     }
 };
 
-- 
2.43.0


From 9d386472094fe56a7262d5da75dd4c9a0dc9ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:47 +0000
Subject: [PATCH 44/47] fix: oldTime left an old field without a link when it
 could not be recorded

---
 .../core/database/oldTimeCollection.hpp       | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/NeoFOAM/core/database/oldTimeCollection.hpp b/include/NeoFOAM/core/database/oldTimeCollection.hpp
index ef94c6b..9fddf9a 100644
--- a/include/NeoFOAM/core/database/oldTimeCollection.hpp
+++ b/include/NeoFOAM/core/database/oldTimeCollection.hpp
@@ -85,18 +85,28 @@ public:
         FieldDocument& fieldDoc = fieldCollection.fieldDoc(idOfNextField);
 
         std::string oldTimeName = fieldDoc.field<FieldType>().name + "_0";
-        FieldType& oldField =
-            fieldCollection.registerField<FieldType>(CreateFromExistingField<FieldType> {
-                .name = oldTimeName,
-                .field = fieldDoc.field<FieldType>(),
-                .timeIndex = fieldDoc.timeIndex() - 1,
-                .iterationIndex = fieldDoc.iterationIndex(),
-                .subCycleIndex = fieldDoc.subCycleIndex()
-            });
-        OldTimeDocument oldTimeDocument(fieldDoc.field<FieldType>().key, oldField.key, "", -1);
+        FieldDocument oldDoc = CreateFromExistingField<FieldType> {
+            .name = oldTimeName,
+            .field = fieldDoc.field<FieldType>(),
+            .timeIndex = fieldDoc.timeIndex() - 1,
+            .iterationIndex = fieldDoc.iterationIndex(),
+            .subCycleIndex = fieldDoc.subCycleIndex()
+        }(db());
+        OldTimeDocument oldTimeDocument(fieldDoc.field<FieldType>().key, oldDoc.id(), "", -1);
         setCurrentFieldAndLevel(oldTimeDocument);
+        const std::string linkId = oldTimeDocument.id();
         insert(oldTimeDocument);
-        return oldField;
+        try
+        {
+            return fieldCollection.registerField<FieldType>([&oldDoc](Database&)
+                                                            { return std::move(oldDoc); });
+        }
+        catch (...)
+        {
+            // no link to an old field that is not registered
+            docs_.erase(linkId);
+            throw;
+        }
     }
 
     template<typename FieldType>
-- 
2.43.0


From 8f60a3e35beceb3374d9ac9b08361f1d8e52ecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:02 +0000
Subject: [PATCH 45/47] fix: polling an exchange that was finalised
 dereferenced a null pointer in debug builds

The assertion only looked for the key, which stays in the map when the exchange is finalised.
---
 src/mesh/unstructured/communicator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/unstructured/communicator.cpp b/src/mesh/unstructured/communicator.cpp
index 71bf0d4..e22778f 100644
--- a/src/mesh/unstructured/communicator.cpp
+++ b/src/mesh/unstructured/communicator.cpp
@@ -8,7 +8,7 @@ namespace NeoFOAM
 bool Communicator::isComplete(std::string commName)
 {
     NF_DEBUG_ASSERT(
-        CommBuffer_.find(commName) != CommBuffer_.end(),
+        CommBuffer_.find(commName) != CommBuffer_.end() && CommBuffer_[commName],
         "No communication buffer associated with key: " << commName
     );
     return CommBuffer_[commName]->isComplete();
-- 
2.43.0


From bb7b4290433f18597ddde095953337b29def6568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:15 +0000
Subject: [PATCH 46/47] fix: fvcc::Expression::assemble weighted the explicit
 temporal terms with the cell volumes twice

---
 .../finiteVolume/cellCentred/dsl/expression.hpp        | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
index 00d3604..d0de3dc 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
@@ -80,8 +80,10 @@ public:
     {
         auto vol = psi_.mesh().cellVolumes().view();
         auto expSource = expr_.explicitOperation(psi_.mesh().nCells());
-        expr_.explicitOperation(expSource, t, dt);
-        auto expSourceView = expSource.view();
+        // NOTE the explicit temporal terms are already integrated over the cell volumes
+        Field<ValueType> expTemporal(exec(), psi_.mesh().nCells(), zero<ValueType>());
+        expr_.explicitOperation(expTemporal, t, dt);
+        auto [expSourceView, expTemporalView] = spans(expSource, expTemporal);
         fill(ls_.rhs(), zero<ValueType>());
         fill(ls_.matrix().values(), zero<ValueType>());
         expr_.implicitOperation(ls_);
@@ -92,7 +94,9 @@ public:
         NeoFOAM::parallelFor(
             exec(),
             {0, rhs.size()},
-            KOKKOS_LAMBDA(const size_t i) { rhs[i] -= expSourceView[i] * vol[i]; }
+            KOKKOS_LAMBDA(const size_t i) {
+                rhs[i] -= expSourceView[i] * vol[i] + expTemporalView[i];
+            }
         );
     }
 
-- 
2.43.0


From ac7bfe1d51630e320e2f05d650b965efd47f7514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:45 +0000
Subject: [PATCH 47/47] fix: destroying registered objects in different threads
 raced on the registration flag

---
 include/NeoFOAM/core/runtimeSelectionFactory.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/core/runtimeSelectionFactory.hpp b/include/NeoFOAM/core/runtimeSelectionFactory.hpp
index efcbf20..aa233d9 100644
--- a/include/NeoFOAM/core/runtimeSelectionFactory.hpp
+++ b/include/NeoFOAM/core/runtimeSelectionFactory.hpp
@@ -334,7 +334,12 @@ public:
             {
                 const auto& tbl = RuntimeSelectionFactory::table();
                 const auto it = tbl.find(derivedClass::name());
-                REGISTERED = (it != tbl.end());
+                // NOTE only written if it changes, since objects of the same class can be destroyed
+                // by different threads
+                if (it == tbl.end())
+                {
+                    REGISTERED = false;
+                }
             }
         }
 
-- 
2.43.0

