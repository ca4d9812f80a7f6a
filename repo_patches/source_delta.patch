From c0219d8bff48482c99319c35c7f9d41ee6df1227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 01/87] fix: rebuild the system of equations until its matrix
 has been decomposed

The rebuild flag was cleared when the admittance matrix was built, not when it
was decomposed. After a step in SLAVE or DUMMY mode, a successful SOR solution,
or a decomposition that failed or hit the decomposition limit, a following
step with no changed link admittances solved with the undecomposed matrix.
---
 core/Gunns.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index a72e0c6..e1a97c3 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -796,7 +796,6 @@ void Gunns::step(const double timeStep)
     ///   future.
     saveMajorPotentialVector();
 
-    mRebuild = false;
     mStepLog.endMajorStep();
 
     mSolveTime = mSolveTimeWorking;
@@ -966,7 +965,10 @@ int Gunns::buildAndSolveSystem(const int minorStep, const double timeStep)
         buildAdmittanceMatrix();
         conditionAdmittanceMatrix();
         needDecomposition = true;
-        mRebuild = false;
+
+        /// - The matrix now holds undecomposed values, so it must be rebuilt again next pass unless
+        ///   it gets decomposed below.
+        mRebuild = true;
     }
     mStepLog.recordLinkContributions();
 
@@ -1036,6 +1038,7 @@ int Gunns::buildAndSolveSystem(const int minorStep, const double timeStep)
                     } else {
                         decompose(mAdmittanceMatrix, mNetworkSize);
                     }
+                    mRebuild = false;
                 } else {
                     throw TsOutOfBoundsException("Iteration Limit Exceeded", "Gunns",
                                                  "decomposition limit exceeded.");
-- 
2.43.0


From a4a606195678c2f463e98d050761037b7a6100fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 02/87] fix: restart restores default port nodes that other
 moved ports occupy

A link whose ports had been moved onto each other's default nodes kept the
moved nodes on restart, because each default node was rejected as a duplicate
of the port not yet moved back.
---
 core/GunnsBasicLink.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/GunnsBasicLink.cpp b/core/GunnsBasicLink.cpp
index b83f21b..87394ca 100755
--- a/core/GunnsBasicLink.cpp
+++ b/core/GunnsBasicLink.cpp
@@ -291,6 +291,16 @@ void GunnsBasicLink::initialize(const GunnsBasicLinkConfigData& configData,
 void GunnsBasicLink::restart()
 {
     initializeRestartCommonFunctions();
+
+    /// - Release the ports that have been moved from their default node first, so that a default
+    ///   node isn't rejected as a duplicate of another port that is itself about to be moved.
+    if (not mNodeMapLocked) {
+        for (int i = 0; i < mNumPorts; ++i) {
+            if (mNodeMap[i] != mDefaultNodeMap[i]) {
+                mNodeMap[i] = getGroundNodeIndex();
+            }
+        }
+    }
     registerNodes(mDefaultNodeMap, "restart", true);
     restartModel();
 }
-- 
2.43.0


From 658b704a85183d1b848a883a51a3b47f6804f236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 03/87] fix: heat injected into an overflowing fluid node is
 not multiplied by its through flow

The through flow leaves with the final contents, which carry the injected heat,
but the node's heat balance charged it with the unheated inflow enthalpy.
---
 core/GunnsFluidNode.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/GunnsFluidNode.cpp b/core/GunnsFluidNode.cpp
index c74390c..0c711cf 100755
--- a/core/GunnsFluidNode.cpp
+++ b/core/GunnsFluidNode.cpp
@@ -583,10 +583,18 @@ void GunnsFluidNode::integrateFlows(const double dt)
     /// - Total mass flow rate (kg/s) of fluid flow out of the node.
     const double outFlow = outFlowContent + outFlowThru;
 
+    /// - Specific enthalpy of the incoming fluid that is flowing straight through.  In a capacitive
+    ///   node this mixes with the final contents before leaving, so it includes its share of any
+    ///   additional injected heat from non-mass flows.
+    double thruEnthalpy = mInflow.getSpecificEnthalpy();
+    if (mVolume > 0.0 and outFlowThru > 0.0) {
+        thruEnthalpy = mInflowHeatFlux / mInfluxRate;
+    }
+
     /// - Calculate net heat flux into the node from all input & output sources, and initial (last)
     ///   mass and heat content of the fluid.
     const double outHeatFlux = outFlowContent * mContent.getSpecificEnthalpy()
-                             + outFlowThru    * mInflow.getSpecificEnthalpy();
+                             + outFlowThru    * thruEnthalpy;
     //    const double lastHeat = lastH * mContent.getMass();
     mNetHeatFlux = mInflowHeatFlux - outHeatFlux;
 
-- 
2.43.0


From 7b800ea398387a93bb1eff3d73eb2d8ad90e945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 04/87] fix: re-initializing a linear interpolator restarts its
 cell search in the new table

---
 ms-utils/math/approximation/TsLinearInterpolator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ms-utils/math/approximation/TsLinearInterpolator.cpp b/ms-utils/math/approximation/TsLinearInterpolator.cpp
index eed1a52..6d8b87d 100644
--- a/ms-utils/math/approximation/TsLinearInterpolator.cpp
+++ b/ms-utils/math/approximation/TsLinearInterpolator.cpp
@@ -138,6 +138,7 @@ void TsLinearInterpolator::init(const double *x, const double *z, const int n,
                         "Invalid Input Argument", "null pointer to dependent variable (z) array.");
 
     mM = n;
+    mI = 0;
     cleanup();
 //    TS_DELETE_ARRAY(mX);
 //    TS_DELETE_ARRAY(mZ);
-- 
2.43.0


From e2308027c514b6c1cbbedf2eaabe81cf4ee0ea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 05/87] fix: bilinear interpolators survive failed and repeated
 initialization and report success

---
 .../math/approximation/TsBilinearInterpolator.cpp  | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ms-utils/math/approximation/TsBilinearInterpolator.cpp b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
index 5139e0a..fcffc99 100644
--- a/ms-utils/math/approximation/TsBilinearInterpolator.cpp
+++ b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
@@ -85,9 +85,11 @@ TsBilinearInterpolator::~TsBilinearInterpolator()
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void TsBilinearInterpolator::cleanup()
 {
-    for (int i = 0; i < mM; ++i) {
-        delete [] mZ[i];
-        mZ[i] = 0;
+    if (mZ) {
+        for (int i = 0; i < mM; ++i) {
+            delete [] mZ[i];
+            mZ[i] = 0;
+        }
     } {
         delete [] mZ;
         mZ = 0;
@@ -129,6 +131,9 @@ void TsBilinearInterpolator::init(const double* x,    const double* y, const dou
     /// - Reset the initialization complete flag.
     mInitFlag = false;
 
+    /// - Release any previous table.
+    cleanup();
+
     mM = m;
     mN = n;
 
@@ -262,6 +267,9 @@ void TsBilinearInterpolator::init(const double* x,    const double* y, const dou
     mN = n;
     mI = 0;
     mJ = 0;
+
+    /// - Set initialization complete flag.
+    mInitFlag = true;
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 5f2bd3943684019f4aca65be710fa0b6aa6ef968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 06/87] fix: bilinear interpolators reverse descending axes of
 even size

The middle pair of rows was swapped twice, so it kept its original order.
---
 ms-utils/math/approximation/TsBilinearInterpolator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ms-utils/math/approximation/TsBilinearInterpolator.cpp b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
index fcffc99..4bbe3b5 100644
--- a/ms-utils/math/approximation/TsBilinearInterpolator.cpp
+++ b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
@@ -205,7 +205,7 @@ void TsBilinearInterpolator::init(const double* x,    const double* y, const dou
     if (x[1] < x[0]) {
         /// - X array is strictly descending,so make ascending and change order of
         ///   Z array to reflect changes made to X.
-        for (int i = 0; i < mM/2+1; ++i) {
+        for (int i = 0; i < (mM+1)/2; ++i) {
             mX[i] = x[mM - i - 1];
             mX[mM - i - 1] = x[i];
             for (int j = 0; j < mN; ++j) {
@@ -223,7 +223,7 @@ void TsBilinearInterpolator::init(const double* x,    const double* y, const dou
     if (y[1] < y[0]) {
         /// - Y array is strictly descending,so make ascending and change order of
         ///   Z array to reflect changes made to X.
-        for (int i = 0; i < mN/2+1; ++i) {
+        for (int i = 0; i < (mN+1)/2; ++i) {
             mY[i] = y[mN - i - 1];
             mY[mN - i - 1] = y[i];
             for (int j = 0; j < mM; ++j) {
-- 
2.43.0


From 7d0bb1c7dc3def559edb245069967c49771dde09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 07/87] fix: reverse bilinear interpolator counts the first
 table value towards its maximum

---
 ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp b/ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp
index befb6d3..625ef9b 100644
--- a/ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp
+++ b/ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp
@@ -80,7 +80,8 @@ void TsBilinearInterpolatorReverse::init()
         for (int j=0; j<mN; ++j) {
             if (mZ[i][j] < mMinY) {
                 mMinY = mZ[i][j];
-            } else if (mZ[i][j] > mMaxY) {
+            }
+            if (mZ[i][j] > mMaxY) {
                 mMaxY = mZ[i][j];
             }
         }
-- 
2.43.0


From 83ac84d4e7ba55a2806f6e2d5912e1b468d7d744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 08/87] fix: segment through a cylinder's first end cap is
 tested against the cap radius

---
 ms-utils/math/intersect/LineSegmentIntersect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/math/intersect/LineSegmentIntersect.cpp b/ms-utils/math/intersect/LineSegmentIntersect.cpp
index 6db5a73..0d49354 100644
--- a/ms-utils/math/intersect/LineSegmentIntersect.cpp
+++ b/ms-utils/math/intersect/LineSegmentIntersect.cpp
@@ -252,7 +252,7 @@ bool LineSegmentIntersect::cylinder(
         t = -md / nd;
 
         // Keep intersection if DOT(S(t) - p, S(t) - p) <= r^2
-        if (k + 2 * t * (mn + t * nn) <= 0.0) {
+        if (k + t * (2 * mn + t * nn) <= 0.0) {
             if (NULL != x) {
                 POINT_ON_LINE(x, sa,sb,t);
             }
-- 
2.43.0


From f02ad16918069ecd807053cf38629781484d0e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 09/87] fix: random integers do not overflow on wide ranges or
 the most negative seed

---
 ms-utils/math/TS_random.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ms-utils/math/TS_random.cpp b/ms-utils/math/TS_random.cpp
index 12ce7da..82efa17 100644
--- a/ms-utils/math/TS_random.cpp
+++ b/ms-utils/math/TS_random.cpp
@@ -251,7 +251,7 @@ const int TS_random::RAND_CNT = 1000;
 int TS_random::boundSeed(
    int seed )
 {
-    return ( std::abs( seed ) % RAND_CNT );
+    return ( std::abs( seed % RAND_CNT ) );
 }
 
 
@@ -343,9 +343,9 @@ int TS_random::randomInt(
         maxValue = temp;
     }
 
-    int range = maxValue - minValue + 1;
+    const double range = static_cast<double>( maxValue ) - minValue + 1.0;
 
-    return static_cast<int>(std::floor( RAND_VALUES[seed] * range )) + minValue;
+    return static_cast<int>( std::floor( RAND_VALUES[seed] * range ) + minValue );
 }
 
 
-- 
2.43.0


From 6e24b6109461cc469f8b66efd4d1ea2d7f4820e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 10/87] fix: quantize and asinh are correct for large
 magnitudes

quantize overflowed an int beyond 2^31 resolution steps, and asinh cancelled to
zero for large negative values.
---
 ms-utils/math/MsMath.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ms-utils/math/MsMath.hh b/ms-utils/math/MsMath.hh
index 268e76e..699b5e8 100755
--- a/ms-utils/math/MsMath.hh
+++ b/ms-utils/math/MsMath.hh
@@ -631,7 +631,7 @@ inline double MsMath::quantize(const double input, const double resolution)
 {
     double result = input;
     if (DBL_EPSILON < resolution) {
-        result = resolution * round(input / resolution);
+        result = resolution * std::floor(input / resolution + 0.5);
     }
 
     return result;
@@ -653,7 +653,9 @@ inline double MsMath::quantize(const double input, const double resolution)
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 inline double MsMath::asinh(const double value)
 {
-    return  MsMath::protectedLog(value + std::sqrt(value * value + 1.0));
+    const double magnitude = std::fabs(value);
+    const double result    = MsMath::protectedLog(magnitude + std::sqrt(magnitude * magnitude + 1.0));
+    return (value < 0.0) ? -result : result;
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From a13500c539eac55daf2a7611952192472eee3e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 11/87] fix: rational fits detect the poles of their
 denominator in the valid range

The check used the roots of x^2 + c x + d (without the factor 1/2) where the
denominator is 1 + c x + d x^2.
---
 ms-utils/math/approximation/RationalFit.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ms-utils/math/approximation/RationalFit.cpp b/ms-utils/math/approximation/RationalFit.cpp
index 12dc091..38e3c31 100644
--- a/ms-utils/math/approximation/RationalFit.cpp
+++ b/ms-utils/math/approximation/RationalFit.cpp
@@ -88,14 +88,20 @@ void RationalFit::init(const double a,    const double b,    const double c,
     const double discrim = c * c - 4.0 * d;
     if (discrim > DBL_EPSILON) {
         // Either check that both real roots are sufficiently outside valid range
-        const double arg = 0.5 * std::sqrt(discrim);
-        TS_GENERIC_IF_ERREX((minX <= -c + arg + DBL_EPSILON && -c + arg - DBL_EPSILON <= maxX), TsInitializationException,
-                            "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
-        TS_GENERIC_IF_ERREX((minX <= -c - arg + DBL_EPSILON && -c - arg - DBL_EPSILON <= maxX), TsInitializationException,
+        // (the second root is at infinity when the quadratic coefficient is zero).
+        const double arg   = -0.5 * (c + ((c < 0.0) ? -std::sqrt(discrim) : std::sqrt(discrim)));
+        const double root1 = 1.0 / arg;
+        TS_GENERIC_IF_ERREX((minX <= root1 + DBL_EPSILON && root1 - DBL_EPSILON <= maxX), TsInitializationException,
                             "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
+        if (d != 0.0) {
+            const double root2 = arg / d;
+            TS_GENERIC_IF_ERREX((minX <= root2 + DBL_EPSILON && root2 - DBL_EPSILON <= maxX), TsInitializationException,
+                                "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
+        }
     } else if (discrim > -DBL_EPSILON) {
         // Or check that an (almost) single real root is sufficiently outside valid range
-        TS_GENERIC_IF_ERREX((minX <= -0.5 * c + DBL_EPSILON && -0.5 * c - DBL_EPSILON < maxX), TsInitializationException,
+        const double root = (std::fabs(c) > DBL_EPSILON) ? -2.0 / c : 0.0;
+        TS_GENERIC_IF_ERREX((minX <= root + DBL_EPSILON && root - DBL_EPSILON < maxX), TsInitializationException,
                             "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
     }
 
-- 
2.43.0


From 3fa2166affc02e5ca2366ec80404eb74739d275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 12/87] fix: segments that start within a cylinder's radius can
 enter it through an end cap

---
 ms-utils/math/intersect/LineSegmentIntersect.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ms-utils/math/intersect/LineSegmentIntersect.cpp b/ms-utils/math/intersect/LineSegmentIntersect.cpp
index 0d49354..097dab0 100644
--- a/ms-utils/math/intersect/LineSegmentIntersect.cpp
+++ b/ms-utils/math/intersect/LineSegmentIntersect.cpp
@@ -241,7 +241,14 @@ bool LineSegmentIntersect::cylinder(
     }
 
     t = (-b - std::sqrt(discr)) / a;
-    if (t < 0.0 || t > 1.0f) return false; // Intersection lies outside segment
+    if (t > 1.0) return false; // Intersection lies outside segment
+    if (t < 0.0) {
+        // Either the segment leads away from the cylinder, or it starts within the cylinder radius.
+        if (c > 0.0) {
+            return false;
+        }
+        t = 0.0;
+    }
 
     if (md + t * nd < 0.0) {
 
-- 
2.43.0


From fef769d01385a42a7174c3e6e42bc8d0a1c7af41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 13/87] fix: distributed fluid interface in the supply role
 uses the energy of the flow it receives

inputFluid points at the flow state in the supply role for the mixture but took the
energy from the fluid state, which then still holds the supply node's own last output,
so fluid returned by the demand side entered at the supply's own temperature.
---
 core/GunnsFluidDistributedIf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/GunnsFluidDistributedIf.cpp b/core/GunnsFluidDistributedIf.cpp
index 0a9392b..61e657b 100755
--- a/core/GunnsFluidDistributedIf.cpp
+++ b/core/GunnsFluidDistributedIf.cpp
@@ -456,9 +456,9 @@ double GunnsFluidDistributedIf::inputFluid(const double pressure, PolyFluid* flu
     fluid->setPressure(pressure);
 
     if (mUseEnthalpy) {
-        fluid->setTemperature(fluid->computeTemperature(mWorkFluidState.mEnergy));
+        fluid->setTemperature(fluid->computeTemperature(workingState->mEnergy));
     } else {
-        fluid->setTemperature(mWorkFluidState.mEnergy);
+        fluid->setTemperature(workingState->mEnergy);
     }
 
     if (mWorkFluidState.mTcMoleFractions) {
-- 
2.43.0


From e77724f40c79021ab7a5954099853826c1a09399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:01 +0000
Subject: [PATCH 14/87] fix: a forced-supply fluid bus must keep its output
 pressure when its capacitance is low

---
 ms-utils/interop/Distributed2WayBusFluid.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ms-utils/interop/Distributed2WayBusFluid.cpp b/ms-utils/interop/Distributed2WayBusFluid.cpp
index bf1fad6..821f0f4 100755
--- a/ms-utils/interop/Distributed2WayBusFluid.cpp
+++ b/ms-utils/interop/Distributed2WayBusFluid.cpp
@@ -550,8 +550,9 @@ void Distributed2WayBusFluid::flipModesOnInput()
 void Distributed2WayBusFluid::flipModesOnCapacitance()
 {
     /// - We do not check until we've been in supply mode for at least one full lag cycle.  This
-    ///   prevents unwanted extra mode flips during large transients.
-    if (mFramesSinceFlip > mLoopLatency and
+    ///   prevents unwanted extra mode flips during large transients.  When the Supply role is forced
+    ///   we do not flip, and the output source term must be left as our pressure.
+    if (SUPPLY != mForcedRole and mFramesSinceFlip > mLoopLatency and
             mOutData.mCapacitance * mModingCapacitanceRatio < mInData.mCapacitance) {
         flipToDemandMode();
         /// - Zero the output pressure/flow source term so the other side doesn't interpret our old
-- 
2.43.0


From 5c41fb1f677257997616cf5305ae1ee92e91beb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 15/87] fix: trace compound mole fractions of a net-negative
 inflow must follow the flow

---
 aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp b/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp
index a39e784..e49e7c7 100644
--- a/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp
+++ b/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp
@@ -646,7 +646,7 @@ void GunnsFluidTraceCompounds::updateMasses()
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsFluidTraceCompounds::updateMoleFractions()
 {
-    if (mFluidMoles > 0.0) {
+    if (std::fabs(mFluidMoles) > 0.0) {
         for (int i = 0;  i < mConfig->mNTypes; ++i) {
             mMoleFraction[i] = mMass[i] / mFluidMoles / mConfig->mCompounds[i]->mMWeight;
         }
-- 
2.43.0


From 266f9a157259e00457d70d4f4f1b560043757c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 16/87] fix: 3-way check valve uses path B's open pressure for
 path B drops

---
 aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp b/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp
index 1d58309..c3a28ab 100644
--- a/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp
+++ b/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp
@@ -304,7 +304,7 @@ double GunnsFluid3WayCheckValve::calculateValvePosition()
         /// - Greater potential drop across B, position less than 0.5
         position = MsMath::limitRange(0.0,
                                     0.5 * (1 - (pressureB - pressureA - mMinPressureDiff)
-                                             / (mOpenPressureA - mMinPressureDiff)),
+                                             / (mOpenPressureB - mMinPressureDiff)),
                                     0.5);
     }
 
-- 
2.43.0


From 4cc94a3cd32c1e15f9406b8e3d5f95a74038d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 17/87] fix: type change conductor must add to a target type
 already present upstream

---
 aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp b/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp
index bdfcc38..ec680a8 100644
--- a/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp
+++ b/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp
@@ -292,7 +292,7 @@ void GunnsFluidTypeChangeConductor::transportFluid(const bool forcedOutflow __at
         // loop i over mNumTypes:
         for (unsigned int i=0; i<mNumTypes; ++i) {
             //   set work mole fractions[mIndexPortDown[i]] equal to work mole fractions[mIndexPortUp[i]]
-            mWorkMoleFractions[mIndexPort1[i]] = mNodes[0]->getOutflow()->getMoleFraction(mIndexPort0[i]);
+            mWorkMoleFractions[mIndexPort1[i]] += mNodes[0]->getOutflow()->getMoleFraction(mIndexPort0[i]);
             //   zero work mole fractions[mIndexPortUp[i]]
             mWorkMoleFractions[mIndexPort0[i]] = 0.0;
         }
@@ -312,7 +312,7 @@ void GunnsFluidTypeChangeConductor::transportFluid(const bool forcedOutflow __at
         }
 
         for (unsigned int i=0; i<mNumTypes; ++i) {
-            mWorkMoleFractions[mIndexPort0[i]] = mNodes[1]->getOutflow()->getMoleFraction(mIndexPort1[i]);
+            mWorkMoleFractions[mIndexPort0[i]] += mNodes[1]->getOutflow()->getMoleFraction(mIndexPort1[i]);
             mWorkMoleFractions[mIndexPort1[i]] = 0.0;
         }
 
-- 
2.43.0


From f8b740baf2e1e87685313848162efb745ac55c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 18/87] fix: condensing heat exchanger with zero heat transfer
 coefficient produced NaN heat

---
 aspects/fluid/conductor/GunnsFluidCondensingHx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aspects/fluid/conductor/GunnsFluidCondensingHx.cpp b/aspects/fluid/conductor/GunnsFluidCondensingHx.cpp
index 03c2893..d8993ee 100644
--- a/aspects/fluid/conductor/GunnsFluidCondensingHx.cpp
+++ b/aspects/fluid/conductor/GunnsFluidCondensingHx.cpp
@@ -393,7 +393,10 @@ void GunnsFluidCondensingHx::updateHeatExchanger(const double dt __attribute__((
             double limitHtc  = std::min(mSegmentHtc, 100.0 * mDot * cpAvg);
             double htcMdotCp = limitHtc / (mDot * cpAvg);
             double tOut      = mSegmentTemperature[i] + std::exp(-htcMdotCp) * (tIn - mSegmentTemperature[i]);
-            double qSensible = limitHtc * (tIn - tOut) / htcMdotCp;
+            double qSensible = 0.0;
+            if (htcMdotCp > 0.0) {
+                qSensible = limitHtc * (tIn - tOut) / htcMdotCp;
+            }
             mSegmentHeat[i]  = 0.0;
 
             /// - If there is enough heat to cause condensation, proceed with condensation
-- 
2.43.0


From aec3b1e37c3a68bdf5008922a1c471cd86ac4385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 19/87] fix: adding a fluid without trace compounds must dilute
 the trace compound mole fractions

---
 aspects/fluid/fluid/PolyFluid.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aspects/fluid/fluid/PolyFluid.cpp b/aspects/fluid/fluid/PolyFluid.cpp
index 37ea386..dc17ec6 100644
--- a/aspects/fluid/fluid/PolyFluid.cpp
+++ b/aspects/fluid/fluid/PolyFluid.cpp
@@ -984,6 +984,7 @@ void PolyFluid::addState(const PolyFluid* src, const double flowRate)
     /// - First determine the source mass flow rate which may be overridden by a non-zero argument
     ///   value and them compute the combined mass flow rate.
     double destFlowRate = mFlowRate;
+    const double destMoleRate = mMWeight > DBL_EPSILON ? destFlowRate / mMWeight : 0.0;
     double srcFlowRate;
     if (std::fabs(flowRate) < DBL_EPSILON) {
         srcFlowRate  = src->mFlowRate;
@@ -1072,6 +1073,11 @@ void PolyFluid::addState(const PolyFluid* src, const double flowRate)
         mMole = moleFlowRate;
         mTraceCompounds->flowIn(*srcTraceCompounds, srcFlowRate / srcMWeight);
         mMole = savedMole;
+    } else if (mTraceCompounds and not srcTraceCompounds) {
+        /// - A source without trace compounds only changes the total moles they are mixed in.
+        for (int i = 0; i < mTraceCompounds->getConfig()->mNTypes; ++i) {
+            mTraceCompounds->getMoleFractions()[i] *= destMoleRate / moleFlowRate;
+        }
     }
 }
 
-- 
2.43.0


From aa17dfdf49ea052ad04dc070ec341ce1400da287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 20/87] fix: condensing heat exchanger must not condense below
 the freezing point

---
 aspects/fluid/conductor/GunnsFluidCondensingHx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/fluid/conductor/GunnsFluidCondensingHx.cpp b/aspects/fluid/conductor/GunnsFluidCondensingHx.cpp
index d8993ee..556821f 100644
--- a/aspects/fluid/conductor/GunnsFluidCondensingHx.cpp
+++ b/aspects/fluid/conductor/GunnsFluidCondensingHx.cpp
@@ -401,7 +401,7 @@ void GunnsFluidCondensingHx::updateHeatExchanger(const double dt __attribute__((
 
             /// - If there is enough heat to cause condensation, proceed with condensation
             ///   calculations.
-            if (qSensible > qDew and ppH2O > DBL_EPSILON) {
+            if (qSensible > qDew and ppH2O > DBL_EPSILON and tDew > 273.15) {
 
                 /// - Segment wall temperature is limited to be above freezing and a warning message
                 ///   is issued as it indicates a network setup or tuning problem.
-- 
2.43.0


From 3f0466402069af1634a4fb464196be0cd682cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 21/87] fix: initial power and current shorts with negative
 values latch their conductance

---
 aspects/electrical/resistive/GunnsShortUtil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aspects/electrical/resistive/GunnsShortUtil.cpp b/aspects/electrical/resistive/GunnsShortUtil.cpp
index 93d6340..d879d9b 100755
--- a/aspects/electrical/resistive/GunnsShortUtil.cpp
+++ b/aspects/electrical/resistive/GunnsShortUtil.cpp
@@ -183,12 +183,12 @@ double GunnsShortUtil::computeShort(const double voltage)
 
     /// - Update or reset initial power and current latching terms.
     if (mMalfInitialPowerFlag) {
-        mPreviousPower = mMalfInitialPowerValue;
+        mPreviousPower = std::fabs(mMalfInitialPowerValue);
     } else {
         mPreviousPower = 0.0;
     }
     if (mMalfInitialCurrentFlag) {
-        mPreviousCurrent = mMalfInitialCurrentValue;
+        mPreviousCurrent = std::fabs(mMalfInitialCurrentValue);
     } else {
         mPreviousCurrent = 0.0;
     }
-- 
2.43.0


From da09bce2af3a2fcd3df8ecbfb3a1040b78faf977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 22/87] fix: constant power load does not transport flux to its
 nodes in every minor step

---
 aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp b/aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp
index 11aa032..f414684 100644
--- a/aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp
+++ b/aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp
@@ -198,7 +198,9 @@ void EpsConstantPowerLoad::updateState(const double dt __attribute__((unused)))
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void EpsConstantPowerLoad::minorStep(const double dt, const int)
 {
-    computeFlows(dt);
+    mPotentialDrop = getDeltaPotential();
+    computeFlux();
+    computePower();
     step(dt);
 }
 
-- 
2.43.0


From 9349ef499a6b5c1b4f07c6f7c931427eae0d331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 23/87] fix: tangent-line power function resistor follows the
 curve for reverse flow

---
 aspects/electrical/resistive/GunnsResistorPowerFunction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aspects/electrical/resistive/GunnsResistorPowerFunction.cpp b/aspects/electrical/resistive/GunnsResistorPowerFunction.cpp
index c4854ae..a5099f4 100755
--- a/aspects/electrical/resistive/GunnsResistorPowerFunction.cpp
+++ b/aspects/electrical/resistive/GunnsResistorPowerFunction.cpp
@@ -251,6 +251,9 @@ void GunnsResistorPowerFunction::minorStep(const double dt        __attribute__(
             const double current = std::pow(dPG, expInv);
             mSystemAdmittance    = expInv * std::pow(dPG, (expInv - 1.0));
             mSystemSource        = current - mSystemAdmittance * dPLimit;
+            if (mPotentialVector[0] < mPotentialVector[1]) {
+                mSystemSource = -mSystemSource;
+            }
 
         } else {
             /// - The is the default, and in our opinion, far better configuration.  The
-- 
2.43.0


From e5677fd3498388ce989b7f45b5af8d16cc5a773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 24/87] fix: internal power supply flux and power when its
 active source is not the first

---
 aspects/electrical/IPS/GunnsElectIps.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/aspects/electrical/IPS/GunnsElectIps.cpp b/aspects/electrical/IPS/GunnsElectIps.cpp
index a377349..0b39b40 100644
--- a/aspects/electrical/IPS/GunnsElectIps.cpp
+++ b/aspects/electrical/IPS/GunnsElectIps.cpp
@@ -560,16 +560,15 @@ void GunnsElectIps::computeFlows(const double TimeStep) {
     mVoltageSwitches = 0;
 
     /// - Drive base class flux and power terms.  Total power and current drawn by this IPS from all
-    ///   inputs are mPower and mFlux, respectively.
-    double totalFlux  = 0.0;
-    double totalPower = 0.0;
-    for (int i=0; i<mNumPorts; ++i) {
-        const double flux = mPotentialVector[i] * mAdmittanceMatrix[i];
-        totalFlux  += flux;
-        totalPower += flux * mPotentialVector[i];
+    ///   inputs are mPower and mFlux, respectively, and flow
+    ///   from its active source.
+    mFlux  = 0.0;
+    mPower = 0.0;
+    if (mActivePowerSource > -1) {
+        const int i = mActivePowerSource;
+        mFlux  = mPotentialVector[i] * mAdmittanceMatrix[i*mNumPorts+i];
+        mPower = mPotentialVector[i] * mFlux;
     }
-    mFlux  = totalFlux;
-    mPower = totalPower;
 
     if (mMalfBiasPowerConsumedFlag){
         mPowerConsumedOn = mDefaultPowerConsumedOn + mMalfBiasPowerConsumedValue;
-- 
2.43.0


From 538f8ed9bfb0e8a562b5928d7ec6b248a11faf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 25/87] fix: a solution that is not a number must not pass the
 convergence check

---
 core/Gunns.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index e1a97c3..2063b77 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -1156,7 +1156,7 @@ bool Gunns::checkSystemConvergence(const int minorStep)
     for (int node = 0; node < mNetworkSize; ++node) {
 
         mNodesConvergence[node] = std::fabs(mMinorPotentialVector[node] - mPotentialVector[node]);
-        if (mNodesConvergence[node] > mConvergenceTolerance) {
+        if (not (mNodesConvergence[node] <= mConvergenceTolerance)) {
             lastNonConvergingNode = node;
 
             /// - Pause recording minor step potentials when the recorded node fails to converge.
-- 
2.43.0


From c5947885c79a45e34639b7a1299d0f2d52a4b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 26/87] fix: electrical switch transports its flux once per
 step, not at each confirmation

---
 aspects/electrical/Switch/SwitchElect.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aspects/electrical/Switch/SwitchElect.cpp b/aspects/electrical/Switch/SwitchElect.cpp
index a270a72..657b813 100755
--- a/aspects/electrical/Switch/SwitchElect.cpp
+++ b/aspects/electrical/Switch/SwitchElect.cpp
@@ -157,10 +157,13 @@ void SwitchElect::updateState(const double timeStep __attribute__((unused))) {
 
 /////////////////////////////////////////////////////////////////////////////////////////////////
 /// @param[in]   timeStep  (s)  time step
-/// @details  Method for saving dt
+/// @details  Method for saving dt and computing the final flux of this step
 /////////////////////////////////////////////////////////////////////////////////////////////////
 void SwitchElect::computeFlows(const double timeStep) {
     mTimeStep = timeStep;
+    GunnsBasicConductor::computeFlows(timeStep);
+    mCurrent  = mFlux;
+    mVoltage  = mPotentialVector[0];
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////
@@ -177,9 +180,6 @@ GunnsBasicLink::SolutionResult SwitchElect::confirmSolutionAcceptable(
 
       mPotentialDrop =  getDeltaPotential();
       computeFlux();
-      updateFlux(mTimeStep, mFlux); // nothing really done here. Kept the same gunnsBasicConductor
-      computePower();
-      transportFlux();
 
       mVoltage = mPotentialVector[0];
       mCurrent = mFlux;
-- 
2.43.0


From 9dbac47702f48bb901654d180f2f35b87303f88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 27/87] fix: tripped electrical switch stays open when the fail
 closed malfunction ends

---
 aspects/electrical/Switch/GunnsElectSwitchUtil.cpp  | 3 +++
 aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp | 4 +++-
 aspects/electrical/Switch/Switch.cpp                | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp b/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
index e227251..810fc92 100755
--- a/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
+++ b/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
@@ -420,6 +420,9 @@ void GunnsElectSwitchUtil::updateSwitchState(const bool powerSupplyValid)
     // apply commanded switch position
     if (!isTripped() && !isWaitingToTrip() && powerSupplyValid) {
         mSwitchIsClosed = mSwitchCommandedClosed;
+    } else if (mPosTrip || mNegTrip) {
+        // a tripped switch stays open, unless failed closed below
+        mSwitchIsClosed = false;
     }
 
     // if power supply is off then open the switch and reset all trip flags
diff --git a/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp b/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
index c8a11f6..21540ab 100755
--- a/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
+++ b/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
@@ -287,7 +287,9 @@ void GunnsElectSwitchUtil2::updateState()
         mPosition = true;
     } else if (mMalfFailOpen) {
         mPosition = false;
-    } else if (not (isTripped() or isWaitingToTrip())) {
+    } else if (isTripped()) {
+        mPosition = false;
+    } else if (not isWaitingToTrip()) {
         mPosition = mPositionCommand;
     }
 }
diff --git a/aspects/electrical/Switch/Switch.cpp b/aspects/electrical/Switch/Switch.cpp
index d8d5676..3f82ae6 100755
--- a/aspects/electrical/Switch/Switch.cpp
+++ b/aspects/electrical/Switch/Switch.cpp
@@ -414,6 +414,9 @@ void Switch::updateSwitchState(const bool powerSupplyValid) {
     // apply commanded switch position
     if (!isTripped() && !isWaitingToTrip() && powerSupplyValid) {
         mSwitchIsClosed = mSwitchCommandedClosed;
+    } else if (mPosTrip || mNegTrip) {
+        // a tripped switch stays open, unless failed closed below
+        mSwitchIsClosed = false;
     }
 
     // if power supply is off then open the switch and reset all trip flags
-- 
2.43.0


From 19a7778fa1fcdb8b9836a6741f76a8afea049edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 28/87] fix: electrical switch stays open while one of its
 voltage trips has not reset

---
 aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp b/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
index 21540ab..eebbb86 100755
--- a/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
+++ b/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
@@ -348,7 +348,7 @@ void GunnsElectSwitchUtil2::updateTrips(const double current, const double volta
                 /// - Upon reset of the voltage trip, the switch automatically closes if it is
                 ///   still commanded to close.  This feature can be avoided by the user resetting
                 ///   the position command to open whenever the switch trips open.
-                if (mPositionCommand) {
+                if (mPositionCommand and not isTripped()) {
                     mPosition = true;
                 }
             }
-- 
2.43.0


From ad91c9d7c464225786273e91466de095282f31ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 29/87] fix: empty battery cells accept charge and share the
 charging current

---
 aspects/electrical/Batt/GunnsElectBattery.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aspects/electrical/Batt/GunnsElectBattery.cpp b/aspects/electrical/Batt/GunnsElectBattery.cpp
index 031cb64..0d45a50 100755
--- a/aspects/electrical/Batt/GunnsElectBattery.cpp
+++ b/aspects/electrical/Batt/GunnsElectBattery.cpp
@@ -374,10 +374,12 @@ void GunnsElectBattery::updateFlux(const double timeStep, const double flux __at
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsElectBattery::updateCells(const double timeStep)
 {
-    /// - Count the number of cells contributing to the load.
+    /// - Count the number of cells contributing to the load.  Empty cells don't contribute to a
+    ///   discharge, but they do accept charge.
     int count = 0;
     for (unsigned int i = 0; i < mNumCells; i++) {
-        if (mCells[i].getEffectiveSoc() > DBL_EPSILON) {
+        if (mCells[i].getEffectiveSoc() > DBL_EPSILON or
+                (mFlux < 0.0 and mCells[i].getEffectiveCapacity() > DBL_EPSILON)) {
             count++;
         }
     }
-- 
2.43.0


From cde6124c6e287459fa1543aa47bfeebc286748fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 30/87] fix: battery takes back its thermal runaway malfunction
 when it ends on an interval boundary

---
 aspects/electrical/Batt/GunnsElectBattery.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/electrical/Batt/GunnsElectBattery.cpp b/aspects/electrical/Batt/GunnsElectBattery.cpp
index 0d45a50..8ee19a6 100755
--- a/aspects/electrical/Batt/GunnsElectBattery.cpp
+++ b/aspects/electrical/Batt/GunnsElectBattery.cpp
@@ -258,7 +258,7 @@ void GunnsElectBattery::updateState(const double timeStep __attribute__((unused)
             mThermalRunawayCell++;
         }
     } else {
-        if (mThermalRunawayTimer > 0.0) {
+        if (mThermalRunawayTimer > 0.0 or mThermalRunawayCell > 0) {
             /// - On removal of this malfunction, shut off all the cell's malfunctions.  We only
             ///   do this on the first pass after the malf is removed, so as to not interfere with
             ///   individual cell's malf used at other times.
-- 
2.43.0


From f6aacbc08c22e36bba026612eb0820f50d0fa08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 31/87] fix: photovoltaic regulators keep an admittance update
 raised by a port change

---
 aspects/electrical/SolarArray/GunnsElectPvRegConv.hh   | 2 +-
 aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aspects/electrical/SolarArray/GunnsElectPvRegConv.hh b/aspects/electrical/SolarArray/GunnsElectPvRegConv.hh
index 974a719..5f901f0 100644
--- a/aspects/electrical/SolarArray/GunnsElectPvRegConv.hh
+++ b/aspects/electrical/SolarArray/GunnsElectPvRegConv.hh
@@ -356,7 +356,7 @@ inline void GunnsElectPvRegConv::updateRegulatedVoltage()
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 inline void GunnsElectPvRegConv::buildAdmittanceMatrix()
 {
-    mAdmittanceUpdate    = mStateAdmittance[mState] != mAdmittanceMatrix[0];
+    mAdmittanceUpdate    = mAdmittanceUpdate or (mStateAdmittance[mState] != mAdmittanceMatrix[0]);
     mAdmittanceMatrix[0] = mStateAdmittance[mState];
 }
 
diff --git a/aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp b/aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp
index f5b5e7d..0eebae5 100644
--- a/aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp
+++ b/aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp
@@ -504,7 +504,7 @@ void GunnsElectPvRegShunt::buildAdmittanceMatrix()
 {
     switch (mState) {
         case REG: {
-            mAdmittanceUpdate = (mAdmittanceMatrix[0] != mInputConductance) or
+            mAdmittanceUpdate = mAdmittanceUpdate or (mAdmittanceMatrix[0] != mInputConductance) or
                                 (mAdmittanceMatrix[3] != mOutputConductance);
             mAdmittanceMatrix[0] = mInputConductance;
             mAdmittanceMatrix[1] = 0.0;
@@ -512,7 +512,7 @@ void GunnsElectPvRegShunt::buildAdmittanceMatrix()
             mAdmittanceMatrix[3] = mOutputConductance;
         } break;
         case SAG: {
-            mAdmittanceUpdate = (mAdmittanceMatrix[0] != mOutputConductance) or
+            mAdmittanceUpdate = mAdmittanceUpdate or (mAdmittanceMatrix[0] != mOutputConductance) or
                                 (mAdmittanceMatrix[3] != mOutputConductance);
             mAdmittanceMatrix[0] =  mOutputConductance;
             mAdmittanceMatrix[1] = -mOutputConductance;
@@ -520,7 +520,7 @@ void GunnsElectPvRegShunt::buildAdmittanceMatrix()
             mAdmittanceMatrix[3] =  mOutputConductance;
         } break;
         default: {  // OFF or invalid
-            mAdmittanceUpdate = (mAdmittanceMatrix[0] != mInputConductance) or
+            mAdmittanceUpdate = mAdmittanceUpdate or (mAdmittanceMatrix[0] != mInputConductance) or
                                 (mAdmittanceMatrix[3] != 0.0);
             mAdmittanceMatrix[0] = mInputConductance;
             mAdmittanceMatrix[1] = 0.0;
-- 
2.43.0


From 0c58ce83ace531216570820151061dae44833186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 32/87] fix: photovoltaic string in the dark reports no maximum
 power when its diodes drop more than its cells

---
 aspects/electrical/SolarArray/GunnsElectPvString.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aspects/electrical/SolarArray/GunnsElectPvString.cpp b/aspects/electrical/SolarArray/GunnsElectPvString.cpp
index 5cdf07c..21878b4 100644
--- a/aspects/electrical/SolarArray/GunnsElectPvString.cpp
+++ b/aspects/electrical/SolarArray/GunnsElectPvString.cpp
@@ -837,9 +837,13 @@ void GunnsElectPvString::updateMpp()
     const double ish   = mShuntVoltageDrop / mEqProps->mRsh;
     const double is    = mEqProps->mIL - ish;
 
-    /// - Maximum Power Point.
-    mMpp.mPower = std::max(0.0, power - mShuntVoltageDrop*ish - is*mSeriesVoltageDrop
-                - is*is*mNumActiveCells*mConfig->mCellConfig.mSeriesResistance);
+    /// - Maximum Power Point.  There is none when the shunt takes all the photocurrent: a reverse
+    ///   series current times a series drop beyond the shunt voltage isn't output power.
+    mMpp.mPower = 0.0;
+    if (is > 0.0) {
+        mMpp.mPower = std::max(0.0, power - mShuntVoltageDrop*ish - is*mSeriesVoltageDrop
+                    - is*is*mNumActiveCells*mConfig->mCellConfig.mSeriesResistance);
+    }
 
     if (mMpp.mPower > 0.0) {
         mMpp.mVoltage     = std::max(DBL_EPSILON, mShuntVoltageDrop
-- 
2.43.0


From bdd20ad46b1fd7f4f90986c9ed7b483ff10ac2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:39 +0000
Subject: [PATCH 33/87] fix: user load switches clear the loads override
 potential source from the admittance when it ends with the switch open

---
 aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp  | 9 +++++++++
 aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp b/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp
index cd1e99f..aa9651b 100755
--- a/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp
+++ b/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp
@@ -276,6 +276,15 @@ void GunnsElectUserLoadSwitch::buildConductance()
             mAdmittanceUpdate = true;
         }
     } else {
+        if (mAdmittanceMatrix[3] != mAdmittanceMatrix[0]) {
+            /// - The loads override has just ended, so clear its potential source terms.  The base class
+            ///   would leave them in place when the switch is open.
+            mAdmittanceMatrix[0] = 0.0;
+            mAdmittanceMatrix[1] = 0.0;
+            mAdmittanceMatrix[2] = 0.0;
+            mAdmittanceMatrix[3] = 0.0;
+            mAdmittanceUpdate = true;
+        }
         GunnsBasicConductor::buildConductance();
     }
     buildSource();
diff --git a/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp b/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp
index 7718a46..367f0f2 100755
--- a/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp
+++ b/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp
@@ -311,6 +311,15 @@ void GunnsElectUserLoadSwitch2::buildConductance()
             mAdmittanceUpdate = true;
         }
     } else {
+        if (mAdmittanceMatrix[3] != mAdmittanceMatrix[0]) {
+            /// - The loads override has just ended, so clear its potential source terms.  The base class
+            ///   would leave them in place when the switch is open.
+            mAdmittanceMatrix[0] = 0.0;
+            mAdmittanceMatrix[1] = 0.0;
+            mAdmittanceMatrix[2] = 0.0;
+            mAdmittanceMatrix[3] = 0.0;
+            mAdmittanceUpdate = true;
+        }
         GunnsBasicConductor::buildConductance();
     }
     buildSource();
-- 
2.43.0


From 89c81ecaf33825e82b17588791853e01c9fe07c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:39 +0000
Subject: [PATCH 34/87] fix: PowerBusElect reports its current through the base
 class flux instead of a hidden duplicate

---
 aspects/electrical/PowerBus/PowerBusElect.cpp | 1 -
 aspects/electrical/PowerBus/PowerBusElect.hh  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/aspects/electrical/PowerBus/PowerBusElect.cpp b/aspects/electrical/PowerBus/PowerBusElect.cpp
index 98238e5..0b4fe03 100755
--- a/aspects/electrical/PowerBus/PowerBusElect.cpp
+++ b/aspects/electrical/PowerBus/PowerBusElect.cpp
@@ -149,7 +149,6 @@ PowerBusElect::PowerBusElect()
                         mNumLoads(0),                             // PowerBus should always have at least one load
                         mBusVoltage(0.0),
                         mTotalCPowerLoadsPower(0.0),
-                        mFlux(0.0),
                         mResLoadsConductance(0.0),
                         mCPowerLoadsConductance(0.0),
                         mActiveResLoadsConductance(0.0),
diff --git a/aspects/electrical/PowerBus/PowerBusElect.hh b/aspects/electrical/PowerBus/PowerBusElect.hh
index 47b3512..d908f7a 100755
--- a/aspects/electrical/PowerBus/PowerBusElect.hh
+++ b/aspects/electrical/PowerBus/PowerBusElect.hh
@@ -180,7 +180,6 @@ class PowerBusElect:public GunnsBasicLink {
         int                   mNumLoads;                          /**< *o (--) trick_chkpnt_io(**) Number of load instances to create */
         double                mBusVoltage;                        /**<    (V)  Bus Voltage */
         double                mTotalCPowerLoadsPower;             /**<    (W)  Total Power of all Constant Power Loads */
-        double                mFlux;                              /**<    (amp) Input current into the PowerBus */
         // double                mPower;                             /**< (W) Sum of all power loads */
         double                mResLoadsConductance;               /**<    (1/ohm) Total Conductance of resistive Loads */
         double                mCPowerLoadsConductance;            /**<    (1/ohm) Total Conductance of constant power loads */
-- 
2.43.0


From 1a473cdbc81cf8b771621a449e5d3cb77e22f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 35/87] fix: thermal panel with no absorptivity or area
 initializes its incident flux to zero instead of NaN

---
 aspects/thermal/GunnsThermalPanel.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aspects/thermal/GunnsThermalPanel.cpp b/aspects/thermal/GunnsThermalPanel.cpp
index ee63732..e2733f8 100755
--- a/aspects/thermal/GunnsThermalPanel.cpp
+++ b/aspects/thermal/GunnsThermalPanel.cpp
@@ -5,6 +5,7 @@
 LIBRARY DEPENDENCY:
      (GunnsThermalSource.o)
 ***************************************************************************************************/
+#include <cfloat>
 #include "GunnsThermalPanel.hh"
 #include "aspects/thermal/PtcsMacros.hh"
 #include "math/MsMath.hh" //needed for MsMath::isInRange() in validate()
@@ -150,7 +151,13 @@ void GunnsThermalPanel::initialize(const GunnsThermalPanelConfigData& configData
     mSurfaceArea = configData.cSurfaceArea;
 
     /// - Set mIncidentHeatFluxPerArea, nominally set by the SimBus, to an initial value.
-    mIncidentHeatFluxPerArea = mDemandedFlux / (mAbsorptivity * mSurfaceArea);
+    ///   A panel with no absorptivity or no area takes in no heat at any incident flux.
+    const double effectiveArea = mAbsorptivity * mSurfaceArea;
+    if (effectiveArea > DBL_EPSILON) {
+        mIncidentHeatFluxPerArea = mDemandedFlux / effectiveArea;
+    } else {
+        mIncidentHeatFluxPerArea = 0.0;
+    }
 
     /// - Set init flag on successful validation.
     mInitFlag = true;
-- 
2.43.0


From 069db58a596d16f555edfc29c5963a140502d7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 36/87] fix: thermal sub-networks connect their space node to
 the super-network's ground instead of the next sub-network's first node

---
 aspects/thermal/network/ThermalNetwork.cpp | 44 ++++++++++++++++------
 aspects/thermal/network/ThermalNetwork.hh  |  2 +
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/aspects/thermal/network/ThermalNetwork.cpp b/aspects/thermal/network/ThermalNetwork.cpp
index a76a754..d475715 100644
--- a/aspects/thermal/network/ThermalNetwork.cpp
+++ b/aspects/thermal/network/ThermalNetwork.cpp
@@ -327,6 +327,10 @@ void ThermalNetwork::stepSpottersPost(const double timeStep)
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void ThermalNetwork::buildNodes()
 {
+    /// - As a sub-network, our last (space) node is replaced by the super-network's ground node, and
+    ///   we only own the node slots that getNumLocalNodes reserved for the others.
+    const int numReserved = std::max(netNumLocalNodes, parser.numNodes) - 1;
+
     /// - Store the number of nodes from the ThermFileParser object.
     netNumLocalNodes = parser.numNodes;
 
@@ -341,11 +345,29 @@ void ThermalNetwork::buildNodes()
     indexSpaceNode = netNodeList.mNumNodes - 1;
 
     /// - Loop through all the nodes.
-    for(int i = 0; i < netNumLocalNodes; ++i)
+    const int numNodes = netIsSubNetwork ? numReserved : netNumLocalNodes;
+    for(int i = 0; i < numNodes; ++i)
     {
         /// - Call initialize() on every GunnsBasicNode.
-        netNodeList.mNodes[i + netSuperNodesOffset].initialize( parser.vNodeNames.at(i) );
+        const std::string nodeName = (i < netNumLocalNodes) ? parser.vNodeNames.at(i)
+                                                            : mName + createNodeName(i);
+        netNodeList.mNodes[i + netSuperNodesOffset].initialize(nodeName);
+    }
+}
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]  node  (--)  index of a node in this network
+///
+/// @returns  int (--) index of the node in the solved network
+///
+/// @details  Our last node is the Gunns space/ground/vacuum node, which as a sub-network is the
+///           super-network's ground node.  Other nodes are offset into the super-network's nodes.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+int ThermalNetwork::getNetworkNode(const int node) const
+{
+    if (node == static_cast<int>(parser.vNodeNames.size()) - 1) {
+        return indexSpaceNode;
     }
+    return node + netSuperNodesOffset;
 }
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 /// @details  Allocates arrays for each link-object type.
@@ -860,7 +882,7 @@ void ThermalNetwork::buildLinkType(const char* linkType,             // name of
 void ThermalNetwork::initializeCap(int i)
 {
     /// - Get the node number of the link's port0.
-    const int port0 = parser.vCapPorts.at(i) + netSuperNodesOffset;
+    const int port0 = getNetworkNode(parser.vCapPorts.at(i));
 
     /// - Capacitance links have a port1 always at SPACE (the very last node).
     const int port1 = indexSpaceNode;
@@ -880,8 +902,8 @@ void ThermalNetwork::initializeCap(int i)
 void ThermalNetwork::initializeCond(int i)
 {
     /// - Get the node number of the link's port0 and port1.
-    const int port0 = parser.vCondPorts0.at(i) + netSuperNodesOffset;
-    const int port1 = parser.vCondPorts1.at(i) + netSuperNodesOffset;
+    const int port0 = getNetworkNode(parser.vCondPorts0.at(i));
+    const int port1 = getNetworkNode(parser.vCondPorts1.at(i));
 
     /// - Initialize the link with its corresponding data.
     mConductionLinks[i].initialize(*mConductionConfigData[i],
@@ -898,8 +920,8 @@ void ThermalNetwork::initializeCond(int i)
 void ThermalNetwork::initializeRad(int i)
 {
     /// - Get the node number of the link's port0 and port1.
-    const int port0 = parser.vRadPorts0.at(i) + netSuperNodesOffset;
-    const int port1 = parser.vRadPorts1.at(i) + netSuperNodesOffset;
+    const int port0 = getNetworkNode(parser.vRadPorts0.at(i));
+    const int port1 = getNetworkNode(parser.vRadPorts1.at(i));
 
     /// - Initialize the link with its corresponding data.
     mRadiationLinks[i].initialize(*mRadiationConfigData[i],
@@ -921,7 +943,7 @@ void ThermalNetwork::initializeHtr(int i)
     /// - Create a temporary ports vector from the heater port numbers at index i.
     std::vector<int>* ports = &parser.vHtrPorts.at(i);
     for (unsigned int j=0; j<parser.vHtrPorts.at(i).size(); ++j) {
-        parser.vHtrPorts.at(i).at(j) += netSuperNodesOffset;
+        parser.vHtrPorts.at(i).at(j) = getNetworkNode(parser.vHtrPorts.at(i).at(j));
     }
 
     /// -Initialize the link with its corresponding data.
@@ -940,7 +962,7 @@ void ThermalNetwork::initializePan(int i)
     /// - Create a temporary ports vector from the panel port numbers at index i.
     std::vector<int>* ports = &parser.vPanPorts.at(i);
     for (unsigned int j=0; j<parser.vPanPorts.at(i).size(); ++j) {
-        parser.vPanPorts.at(i).at(j) += netSuperNodesOffset;
+        parser.vPanPorts.at(i).at(j) = getNetworkNode(parser.vPanPorts.at(i).at(j));
     }
 
     /// - Initialize the link with its corresponding data.
@@ -960,7 +982,7 @@ void ThermalNetwork::initializePot(int i)
     const int port0 = indexSpaceNode;
 
     /// - Get the node number of the link's port1.
-    const int port1 = parser.vPotPorts.at(i) + netSuperNodesOffset;
+    const int port1 = getNetworkNode(parser.vPotPorts.at(i));
 
     /// - Initialize the link with its corresponding data.
     mPotentialLinks[i].initialize(*mPotentialConfigData[i],
@@ -979,7 +1001,7 @@ void ThermalNetwork::initializeSrc(int i)
     /// - Create a temporary ports vector from the heater port numbers at index i.
     std::vector<int>* ports = &parser.vSrcPorts.at(i);
     for (unsigned int j=0; j<parser.vSrcPorts.at(i).size(); ++j) {
-        parser.vSrcPorts.at(i).at(j) += netSuperNodesOffset;
+        parser.vSrcPorts.at(i).at(j) = getNetworkNode(parser.vSrcPorts.at(i).at(j));
     }
 
     /// - Initialize the link with its corresponding data.
diff --git a/aspects/thermal/network/ThermalNetwork.hh b/aspects/thermal/network/ThermalNetwork.hh
index 5c03367..6627b00 100644
--- a/aspects/thermal/network/ThermalNetwork.hh
+++ b/aspects/thermal/network/ThermalNetwork.hh
@@ -253,6 +253,8 @@ class ThermalNetwork : public GunnsNetworkBase
 
         /// @brief  Allocates and initializes the network's nodes objects.
         void buildNodes();
+        /// @brief  Returns the solved network's index of the given node of this network.
+        int  getNetworkNode(const int node) const;
         /// @brief  Allocates arrays for each link-object type.
         void allocate();
         /// @brief  Validates this Thermal Network initial state.
-- 
2.43.0


From 3651f5ffd4ef0db84227de8eda021e69abab4af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:44 +0000
Subject: [PATCH 37/87] fix: a phase change battery that leaks its whole charge
 keeps a finite hot phase fraction

The minimum remaining mass of 2 DBL_EPSILON vanishes in round-off for masses
above about 4 kg, so a complete leak left zero mass and 0/0 hot fraction.
Keep the same positive minimum that updateFlux already enforces.
---
 aspects/thermal/GunnsThermalPhaseChangeBattery.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/thermal/GunnsThermalPhaseChangeBattery.cpp b/aspects/thermal/GunnsThermalPhaseChangeBattery.cpp
index 69fa1b1..86b010d 100755
--- a/aspects/thermal/GunnsThermalPhaseChangeBattery.cpp
+++ b/aspects/thermal/GunnsThermalPhaseChangeBattery.cpp
@@ -444,7 +444,7 @@ void GunnsThermalPhaseChangeBattery::updateMassLeak(const double dt)
                                                       mMass - 2.0 * DBL_EPSILON));
         mActualLeakRate = std::min(mMalfHotPhaseLeakRate, minMass / dt);
         hotMass -= mActualLeakRate * dt;
-        mMass   -= mActualLeakRate * dt;
+        mMass    = std::max(mMass - mActualLeakRate * dt, DBL_EPSILON * 3.0);
         mHotPhaseFraction = hotMass / mMass;
     } else {
         mActualLeakRate = 0.0;
-- 
2.43.0


From 1e3a0f0e372b7bf9d93bd70fc3a0bcd9dce032b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 38/87] fix: an adsorber that stops sorbing no longer leaves
 its last source in the network

---
 aspects/fluid/source/GunnsFluidAdsorber.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aspects/fluid/source/GunnsFluidAdsorber.cpp b/aspects/fluid/source/GunnsFluidAdsorber.cpp
index 548f66c..f69da9f 100644
--- a/aspects/fluid/source/GunnsFluidAdsorber.cpp
+++ b/aspects/fluid/source/GunnsFluidAdsorber.cpp
@@ -411,6 +411,9 @@ void GunnsFluidAdsorber::updateFluid(const double dt, const double flowRate __at
                 mSourceVector[0] = mSorbtionFlowRate / mSorbtionFluid->getMWeight();
                 mSourceVector[1] = 0.0;
             }
+        } else {
+            mSourceVector[0] = 0.0;
+            mSourceVector[1] = 0.0;
         }
     }
 }
-- 
2.43.0


From 0059b5875aa91fb1cb52495759fe73203fd05e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 39/87] fix: an adsorber in reverse flow adds the trace
 compounds it removes to its adsorbed mass

---
 aspects/fluid/source/GunnsFluidAdsorber.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/fluid/source/GunnsFluidAdsorber.cpp b/aspects/fluid/source/GunnsFluidAdsorber.cpp
index f69da9f..2e08d49 100644
--- a/aspects/fluid/source/GunnsFluidAdsorber.cpp
+++ b/aspects/fluid/source/GunnsFluidAdsorber.cpp
@@ -441,7 +441,7 @@ void GunnsFluidAdsorber::adsorb(const double dt, const double rate, const double
     /// - Adsorb trace compounds from the internal fluid.  Trace compounds adsorption efficiency is
     ///   reduced as the accumulated adsorbed mass approaches the maximum the adsorber can hold.
     if (GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds()) {
-        mInternalFluid->setMole(mFlux);
+        mInternalFluid->setMole(std::fabs(mFlux));
         tc->updateMasses();
         for (int i = 0; i < tc->getConfig()->mNTypes; ++i) {
             double adsorption_efficiency = mTcEfficiency[i];
-- 
2.43.0


From 692d6131ecb3174cb3746f3b71a83e643d2931ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 40/87] fix: a selective membrane takes nothing from an
 upstream side at the external partial pressure

---
 aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp b/aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp
index a544fc9..5bef1f5 100644
--- a/aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp
+++ b/aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp
@@ -364,8 +364,7 @@ void GunnsFluidSelectiveMembrane::step(const double dt __attribute__((unused)))
             mInternalSaturationP = intProps->getSaturationPressure(mNodes[upstreamPort]->getContent()->getTemperature());
             mInternalSaturated   = (mInternalPartialP[upstreamPort] > mInternalSaturationP);
         } else {
-            const double availableSource = 1.0e+6;
-            mMembraneFlowRate    = std::min(mMembraneDeltaP[downstreamPort] * mAbsorptionCoeff, availableSource);
+            mMembraneFlowRate    = std::min(mMembraneDeltaP[downstreamPort] * mAbsorptionCoeff, 0.0);
             mInternalSaturationP = intProps->getSaturationPressure(mNodes[downstreamPort]->getContent()->getTemperature());
             mInternalSaturated   = (mInternalPartialP[downstreamPort] > mInternalSaturationP);
         }
-- 
2.43.0


From f3752a89b3e74651c06f9b417486889abad8e75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 41/87] fix: trace compounds mixed into a net outflow of moles
 are no longer lost

---
 aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp b/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp
index e49e7c7..8256bd4 100644
--- a/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp
+++ b/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp
@@ -655,7 +655,7 @@ void GunnsFluidTraceCompounds::updateMoleFractions()
     /// - To avoid math underflows, zero mass and mole fraction if the mole fraction drops to an
     ///   insignificant level.
     for (int i = 0;  i < mConfig->mNTypes; ++i) {
-        if (mMoleFraction[i] < DBL_EPSILON) {
+        if (std::fabs(mMoleFraction[i]) < DBL_EPSILON) {
             mMoleFraction[i] = 0.0;
             mMass[i]         = 0.0;
         }
-- 
2.43.0


From 274644627a30640152fc507e7a5766437a21aa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:05 +0000
Subject: [PATCH 42/87] fix: a multi-compound adsorber moves exactly the trace
 compounds it sorbs

---
 .../source/GunnsFluidAdsorptionCompound.cpp   |  6 ++-
 .../fluid/source/GunnsFluidMultiAdsorber.cpp  | 43 ++++++++++++-------
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidAdsorptionCompound.cpp b/aspects/fluid/source/GunnsFluidAdsorptionCompound.cpp
index 6eee639..bd30ce1 100644
--- a/aspects/fluid/source/GunnsFluidAdsorptionCompound.cpp
+++ b/aspects/fluid/source/GunnsFluidAdsorptionCompound.cpp
@@ -280,8 +280,10 @@ void GunnsFluidAdsorptionCompound::sorb(const double dt, const double tAvg, cons
 
         /// - Adsorption rate is the efficiency times the mass flow thru.
         double mdotThru = 0.0;
-        if (mTraceCompound and std::fabs(mdot) > m100EpsilonLimit) {
-            mdotThru = mFluid->getTraceCompounds()->getMasses()[mIndex];
+        if (mTraceCompound) {
+            if (std::fabs(mdot) > m100EpsilonLimit) {
+                mdotThru = mFluid->getTraceCompounds()->getMasses()[mIndex];
+            }
         } else {
             mdotThru = mFluid->getMassFraction(mIndex) * std::fabs(mdot);
         }
diff --git a/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp b/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp
index eb8e97c..f5b7044 100644
--- a/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp
@@ -283,13 +283,13 @@ void GunnsFluidMultiAdsorber::restartModel()
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 /// @param[in]   dt         (s)     Time step.
-/// @param[in]   flowRate   (kg/s)  Mass flow rate (not used).
+/// @param[in]   flowRate   (kg/s)  Mass flow rate.
 ///
 /// @return      void
 ///
 /// @details     Update the internal fluids for constituent mass removed by adsorbtion or added by desorbtion.
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-void GunnsFluidMultiAdsorber::updateFluid(const double dt, const double flowRate __attribute__((unused)))
+void GunnsFluidMultiAdsorber::updateFluid(const double dt, const double flowRate)
 {
     /// - Zero the sorption flow rates and reset the sorption fluids.
     mSorptionFluid->resetState();
@@ -317,6 +317,12 @@ void GunnsFluidMultiAdsorber::updateFluid(const double dt, const double flowRate
                                  + mInternalFluid->getTemperature());
         const double pAvg = 0.5 * (mPotentialVector[0] + mPotentialVector[1]);
 
+        /// - Scale the internal fluid and its trace compounds to the through-flow, so that the trace
+        ///   compound masses are their mass flow rates.
+        if (std::fabs(flowRate) > m100EpsilonLimit) {
+            mInternalFluid->setMass(std::fabs(flowRate));
+        }
+
         /// - Update & sum sorption rates of all compounds.
         double fluidAdsorptionRate = 0.0;
         for (unsigned int i=0; i<mNCompounds; ++i) {
@@ -332,6 +338,26 @@ void GunnsFluidMultiAdsorber::updateFluid(const double dt, const double flowRate
         ///   sorbant material, and desorptions are endothermic, pulling heat from the material.
         mWallHeatFlux += mSorptionHeat;
 
+        /// - Update trace compounds.  Without a through-flow to take or leave them, they are moved
+        ///   directly to the outlet node.
+        if (GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds()) {
+            const bool isFlowing = std::fabs(mFlowRate) > m100EpsilonLimit;
+            for (unsigned int i=0; i<mNCompounds; ++i) {
+                if (mCompounds[i].isTraceCompound()) {
+                    const int    index          = mCompounds[i].getIndex();
+                    const double adsorptionRate = mCompounds[i].mAdsorptionRate;
+                    if (isFlowing) {
+                        tc->setMass(index, tc->getMasses()[index] - adsorptionRate);
+                    } else if (std::fabs(adsorptionRate) > 0.0) {
+                        static_cast<GunnsFluidNode*>(mNodes[exitPort])->collectTc(index, -adsorptionRate);
+                    }
+                }
+            }
+            if (isFlowing) {
+                tc->updateMoleFractions();
+            }
+        }
+
         if (std::fabs(fluidAdsorptionRate) > m100EpsilonLimit) {
 
             /// - Reset the internal fluid state.
@@ -348,19 +374,6 @@ void GunnsFluidMultiAdsorber::updateFluid(const double dt, const double flowRate
             /// - Update output atmosphere mass, moles & fractions from constituent mass.
             mSorptionFluid->updateMass();
 
-            /// - Update trace compounds.
-            if (GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds()) {
-                for (unsigned int i=0; i<mNCompounds; ++i) {
-                    if (mCompounds[i].isTraceCompound()) {
-                        const int    index          = mCompounds[i].getIndex();
-                        const double inletRate      = tc->getMasses()[index];
-                        const double adsorptionRate = mCompounds[i].mAdsorptionRate;
-                        tc->setMass(index, inletRate - adsorptionRate);
-                    }
-                }
-                tc->updateMoleFractions();
-            }
-
             /// - Update output atmosphere temperature.
             mSorptionFluid->setTemperature(mInternalFluid->getTemperature());
 
-- 
2.43.0


From da459a46fa6af46c9806773aea92ad5c98654742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 43/87] fix: a gas accumulator filled from a node without
 inflow takes the node's outflow instead of an empty mixture

---
 aspects/fluid/capacitor/GunnsFluidAccumGas.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aspects/fluid/capacitor/GunnsFluidAccumGas.cpp b/aspects/fluid/capacitor/GunnsFluidAccumGas.cpp
index c4ec03b..a77102f 100644
--- a/aspects/fluid/capacitor/GunnsFluidAccumGas.cpp
+++ b/aspects/fluid/capacitor/GunnsFluidAccumGas.cpp
@@ -495,9 +495,14 @@ void GunnsFluidAccumGas::updateGasChamber(const double dt)
     const double oldMass = mGasInternalFluid->getMass();
     const double newMass = computeMass(dt, mGasFlowRate, oldMass);
     if (mGasFlowRate > DBL_EPSILON) {
+        /// - The node's inflow mixture has no composition when nothing has flowed into the node.
+        PolyFluid* source = mNodes[GAS_PORT]->getInflow();
+        if (not (source->getMWeight() > DBL_EPSILON)) {
+            source = mNodes[GAS_PORT]->getOutflow();
+        }
         GunnsFluidUtils::mixFluidMasses(mGasInternalFluid,
                                         oldMass,
-                                        mNodes[GAS_PORT]->getInflow(),
+                                        source,
                                         dt * mGasFlowRate,
                                         mNodes[GAS_PORT]->getFluidConfig()->mNTypes);
     } else {
-- 
2.43.0


From f38463dde2e085795bbd9d4cd97084521afd8018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:04 +0000
Subject: [PATCH 44/87] fix: a bellows accumulator mixes the trace compounds
 that flow into its liquid chamber

---
 aspects/fluid/capacitor/GunnsFluidAccum.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/aspects/fluid/capacitor/GunnsFluidAccum.cpp b/aspects/fluid/capacitor/GunnsFluidAccum.cpp
index 106174d..4902210 100644
--- a/aspects/fluid/capacitor/GunnsFluidAccum.cpp
+++ b/aspects/fluid/capacitor/GunnsFluidAccum.cpp
@@ -1242,7 +1242,16 @@ void GunnsFluidAccum::updateLiqChamber(const double dt)
                                                       mLiquidHousingQ));
     /// - Update liquid mass.
     double newMass = computeMass(dt, mFlowRate, mInternalFluid->getMass());
-    mInternalFluid->setMass(newMass);
+    if (mFlowRate > m100EpsilonLimit and mInternalFluid->getTraceCompounds()) {
+        /// - Mix the incoming trace compounds with those in the chamber.
+        GunnsFluidUtils::mixFluidMasses(mInternalFluid,
+                                        mInternalFluid->getMass(),
+                                        mNodes[LIQUID_PORT]->getOutflow(),
+                                        dt * mFlowRate,
+                                        mNodes[LIQUID_PORT]->getFluidConfig()->mNTypes);
+    } else {
+        mInternalFluid->setMass(newMass);
+    }
     double density = mInternalFluid->getDensity();
 
     /// - Update liquid and pressurizer volumes.
-- 
2.43.0


From 3dfe949f174c1dd91687346f71c0ff3186898a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 45/87] fix: an analog sensor whose reading is more than 2^31
 resolution steps no longer reports garbage

---
 gunns-ts-models/common/sensors/SensorAnalog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gunns-ts-models/common/sensors/SensorAnalog.cpp b/gunns-ts-models/common/sensors/SensorAnalog.cpp
index 79359a1..b331f00 100755
--- a/gunns-ts-models/common/sensors/SensorAnalog.cpp
+++ b/gunns-ts-models/common/sensors/SensorAnalog.cpp
@@ -527,6 +527,6 @@ void SensorAnalog::applyResolution()
     value = std::fabs(value);
 
     if (value > FLT_EPSILON) {
-        mSensedOutput = value * MsMath::round(mSensedOutput/value);
+        mSensedOutput = value * static_cast<float>(std::floor(static_cast<double>(mSensedOutput/value) + 0.5));
     }
 }
-- 
2.43.0


From 46e906e26b1efb03eea3b77a7f540f8f3efa5a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 46/87] fix: the optical smoke detector uses the voltage scales
 and sensor configurations it is given

---
 gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp b/gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp
index 7e0fd08..07023b4 100644
--- a/gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp
+++ b/gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp
@@ -152,6 +152,12 @@ void TsOpticSmokeDetector::initialize(
     configD.bitRecoveryTime      = configData.bitRecoveryTime;
     configD.obsOffValue          = configData.obsOffValue;
     configD.scatOffValue         = configData.scatOffValue;
+    configD.obsPercentVoltSlope  = configData.obsPercentVoltSlope;
+    configD.obsVoltIntercept     = configData.obsVoltIntercept;
+    configD.scatPercentVoltSlope = configData.scatPercentVoltSlope;
+    configD.scatVoltIntercept    = configData.scatVoltIntercept;
+    configD.obsSensorConfigD     = configData.obsSensorConfigD;
+    configD.scatterSensorConfigD = configData.scatterSensorConfigD;
 
     configD.obsSensorConfigD.mMinRange     = configD.obsMinPercentage;
     configD.obsSensorConfigD.mOffValue     = configD.obsOffValue;
-- 
2.43.0


From fa884a1db95801f513b6c1d465238d73aa3e05b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 47/87] fix: fluid sources with an internal fluid transport the
 demanded mass

GunnsFluidSource::transportFlows converted the molar flux back to mass with the
molecular weight of the port's outflow, while step converted the demand to a
molar flux with that of the internal fluid, so such links (metabolic) delivered
the wrong mass.
---
 core/GunnsFluidSource.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/GunnsFluidSource.cpp b/core/GunnsFluidSource.cpp
index 4f44691..b35cc7b 100755
--- a/core/GunnsFluidSource.cpp
+++ b/core/GunnsFluidSource.cpp
@@ -258,10 +258,16 @@ void GunnsFluidSource::computeFlows(const double dt __attribute__((unused)))
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsFluidSource::transportFlows(const double dt)
 {
-    /// - Convert the molar flow rate to mass rate using the molecular weight of the source node.
+    /// - Convert the molar flow rate to mass rate using the same molecular weight that was used to
+    ///   convert the demand in the step method: of the internal fluid if there is one, otherwise of
+    ///   the source node.
     int    sourcePort    = determineSourcePort(mFlux, 0, 1);
-    double sourceDensity =         mNodes[sourcePort]->getOutflow()->getDensity();
-    mFlowRate            = mFlux * mNodes[sourcePort]->getOutflow()->getMWeight();
+    double sourceDensity = mNodes[sourcePort]->getOutflow()->getDensity();
+    if (mInternalFluid) {
+        mFlowRate = mFlux * mInternalFluid->getMWeight();
+    } else {
+        mFlowRate = mFlux * mNodes[sourcePort]->getOutflow()->getMWeight();
+    }
 
     /// - Calculate true volumetric flow rate from the mass flow rate, using the density of the
     ///   source node.
-- 
2.43.0


From a30316f39dc9f0fdc8b93d180f9e4ed826d5c6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 48/87] fix: limit the crew's total oxygen consumption by the
 oxygen in the node

The limit was applied to each metabolic state separately, so crews in several
states together could consume more oxygen than there is.
---
 aspects/fluid/source/GunnsFluidMetabolic.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidMetabolic.cpp b/aspects/fluid/source/GunnsFluidMetabolic.cpp
index 5743f58..33dfef0 100644
--- a/aspects/fluid/source/GunnsFluidMetabolic.cpp
+++ b/aspects/fluid/source/GunnsFluidMetabolic.cpp
@@ -395,14 +395,14 @@ void GunnsFluidMetabolic::updateState(const double dt)
         mProducedH2O   = 0.0;
         mProducedHeat  = 0.0;
         for (int i = 0; i < GunnsFluidMetabolic::NO_METABOLIC; ++i) {
-            /// - O2 consumption rate is limited by the O2 mass in the node.
-            mConsumedO2   += std::min((mNodes[1]->getContent()->getMassFraction(mO2) *
-                                   mNodes[1]->getContent()->getMass()) / dt,
-                                  mNCrew[i] * mO2ConsumptionRate[i]);
+            mConsumedO2   += mNCrew[i] * mO2ConsumptionRate[i];
             mProducedCO2  += mNCrew[i] * mCO2ProductionRate[i];
             mProducedH2O  += mNCrew[i] * mH2OProductionRate[i];
             mProducedHeat += mNCrew[i] * mHeatProductionRate[i];
         }
+        /// - Total O2 consumption rate is limited by the O2 mass in the node.
+        mConsumedO2 = std::min((mNodes[1]->getContent()->getMassFraction(mO2) *
+                                mNodes[1]->getContent()->getMass()) / dt, mConsumedO2);
         const double flowDemand = mProducedH2O + mProducedCO2 - mConsumedO2;
 
         if (std::fabs(flowDemand) <= DBL_EPSILON) {
-- 
2.43.0


From 8b3b122965c05ae5e9236b45cc3f51e2226b1780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 49/87] fix: a blocked fire releases trace compounds at the
 blocked rate too

The blockage malfunction reduced the bulk flows but not the trace compound
mass rates carried by them.
---
 aspects/fluid/source/GunnsFluidFireSource.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aspects/fluid/source/GunnsFluidFireSource.cpp b/aspects/fluid/source/GunnsFluidFireSource.cpp
index 66072d1..509e492 100644
--- a/aspects/fluid/source/GunnsFluidFireSource.cpp
+++ b/aspects/fluid/source/GunnsFluidFireSource.cpp
@@ -272,6 +272,12 @@ void GunnsFluidFireSource::step(const double dt)
         mFlowO2   *= (1.0 - mMalfBlockageValue);
         mFlowCO2  *= (1.0 - mMalfBlockageValue);
         mFlowH2O  *= (1.0 - mMalfBlockageValue);
+        GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds();
+        if (mMalfFireFlag and tc) {
+            for (int i = 0; i < tc->getConfig()->mNTypes; ++i) {
+                mTraceCompoundMassRates[i] *= (1.0 - mMalfBlockageValue);
+            }
+        }
     }
 
     /// - Convert the mass flow rate demand to molar flow rate based on the molecular weight of the
-- 
2.43.0


From 3e5a130abb863f87ad459fa47b6855f8eaba09dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 50/87] fix: the multi-separator delivers each separated fluid
 to its own port

transportFlows stepped through the exit ports and the separated fluids together,
ignoring the port assigned to each fluid, and read past the end of the separated
fluids when there are fewer of them than exit ports.
---
 aspects/fluid/source/GunnsFluidMultiSeparator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
index 7fcac39..9f85f4e 100644
--- a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
@@ -683,11 +683,11 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
 
     /// - The separation fluids added to the exit nodes use the buffered separation flows from last
     ///   pass, which were reflected in the link source vector this pass.
-    for (int port=2, fluid=0; port<mNumPorts; ++port, ++fluid) {
+    for (int fluid=0; fluid<mNumSepTypes; ++fluid) {
         mSepFluid[fluid].setTemperature(temperature);
         const double mdot = mSepBufferExit[fluid] * mSepFluid[fluid].getMWeight();
         if (mdot > DBL_EPSILON) {
-            mNodes[port]->collectInflux(mdot, &mSepFluid[fluid]);
+            mNodes[mSepPort[fluid]]->collectInflux(mdot, &mSepFluid[fluid]);
         }
     }
 
-- 
2.43.0


From 109c05a3f524ce22f5fd6e807ef7b43427371464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 51/87] fix: the multi-separator's source vector adds up all
 fluids sharing an exit port

---
 aspects/fluid/source/GunnsFluidMultiSeparator.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
index 9f85f4e..6402075 100644
--- a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
@@ -568,8 +568,9 @@ void GunnsFluidMultiSeparator::step(const double dt __attribute__((unused)))
 
     /// - Build the link source vector.  Each separated fluid flow from last pass is added to its
     ///   respective exit port, and subtracted from the downstream port of the bulk through-flow.
-    mSourceVector[0] = 0.0;
-    mSourceVector[1] = 0.0;
+    for (int i=0; i<mNumPorts; ++i) {
+        mSourceVector[i] = 0.0;
+    }
     for (int i=0; i<mNumSepTypes; ++i) {
         if (mPotentialVector[0] >= mPotentialVector[1]) {
             mSourceVector[1] -= mSepBufferThru[i];
@@ -577,7 +578,7 @@ void GunnsFluidMultiSeparator::step(const double dt __attribute__((unused)))
             mSourceVector[0] -= mSepBufferThru[i];
         }
         mSepBufferExit[i] = mSepBufferThru[i];
-        mSourceVector[mSepPort[i]] = mSepBufferExit[i];
+        mSourceVector[mSepPort[i]] += mSepBufferExit[i];
     }
 }
 
-- 
2.43.0


From 8d02c369004449560eb3d6780c5fe2b488f6d2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:02 +0000
Subject: [PATCH 52/87] fix: a multi-separator refused by validation does not
 report itself initialized

---
 aspects/fluid/source/GunnsFluidMultiSeparator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
index 6402075..9b73986 100644
--- a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
@@ -229,9 +229,6 @@ void GunnsFluidMultiSeparator::initialize(const GunnsFluidMultiSeparatorConfigDa
                                           std::vector<GunnsBasicLink*>&             networkLinks,
                                           std::vector<int>*                         portsVector)
 {
-    /// - Reset initialization flag.
-    mInitFlag = false;
-
     /// - Initialize the base class with initial node map from ports vector.
     mNumPorts = static_cast<int>(portsVector->size());
     int ports[mNumPorts];
@@ -241,6 +238,9 @@ void GunnsFluidMultiSeparator::initialize(const GunnsFluidMultiSeparatorConfigDa
     }
     GunnsFluidLink::initialize(configData, inputData, networkLinks, ports);
 
+    /// - Reset initialization flag.
+    mInitFlag = false;
+
     /// - Validate the config & input data.  It's split into separate functions to keep the function
     ///   lengths reasonable.
     validate(configData, inputData);
-- 
2.43.0


From 31f42c5ea7e20aa137f707dd778df44b6f9d300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 53/87] fix: the multi-separator conserves trace compounds

The trace compounds left in the through flow were lost or duplicated when only
fluids or only trace compounds were separated, because their mole fractions were
not relative to the remaining moles, and were lost when all fluid was separated.
---
 .../fluid/source/GunnsFluidMultiSeparator.cpp | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
index 9b73986..8e33ce3 100644
--- a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
@@ -699,7 +699,7 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
 
         /// - Move trace compounds from the bulk fluid to their exit nodes.
         GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds();
-        if (tc and mNumTcTypes > 0) {
+        if (tc) {
             const GunnsFluidTraceCompoundsConfigData* tcConfig = tc->getConfig();
             for (int i=0; i<tcConfig->mNTypes; i++) {
                 mWorkTcMassFlowRates[i] = flux * tc->getMoleFractions()[i] * tcConfig->mCompounds[i]->mMWeight;
@@ -709,7 +709,6 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
                 mWorkTcMassFlowRates[mTcIndex[i]] -= tcSepRate;
                 static_cast<GunnsFluidNode*>(mNodes[mTcPort[i]])->collectTc(mTcIndex[i], tcSepRate);
             }
-            tc->setMasses(mWorkTcMassFlowRates);
         }
 
         /// - The bulk through flow has the separated fluids removed from it before being given to
@@ -735,14 +734,26 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
                 mInternalFluid->setMoleAndMoleFractions(exitFlux, mWorkMoleFractions);
                 mInternalFluid->setTemperature(temperature);
             }
+        } else {
+            mInternalFluid->setMass(exitFlux * mInternalFluid->getMWeight());
         }
 
-        /// - Update trace compound mole fractions relative to the moles remaining in the
+        /// - Update trace compound masses and mole fractions relative to the moles remaining in the
         ///   internal fluid, before given to the downstream node.
-        if (tc and mNumTcTypes > 0) {
+        if (tc) {
+            tc->setMasses(mWorkTcMassFlowRates);
             tc->updateMoleFractions();
         }
-        mNodes[downstreamPort]->collectInflux(exitFlux * mInternalFluid->getMWeight(), mInternalFluid);
+
+        /// - If all of the bulk fluid has been separated then nothing is left to carry the remaining
+        ///   trace compounds, so they are given to the downstream node directly.
+        if (exitFlux > DBL_EPSILON) {
+            mNodes[downstreamPort]->collectInflux(exitFlux * mInternalFluid->getMWeight(), mInternalFluid);
+        } else if (tc) {
+            for (int i=0; i<tc->getConfig()->mNTypes; ++i) {
+                static_cast<GunnsFluidNode*>(mNodes[downstreamPort])->collectTc(i, mWorkTcMassFlowRates[i]);
+            }
+        }
     }
 }
 
-- 
2.43.0


From 4ec576f09753183d6289127e37bae7ecc52616a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 54/87] fix: a multi-separator that separates every constituent
 no longer aborts the flow transport

Round-off left a tiny remaining flux whose mole fractions did not add up to one.
---
 aspects/fluid/source/GunnsFluidMultiSeparator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
index 8e33ce3..fe5848d 100644
--- a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
@@ -724,7 +724,13 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
             }
             for (int i=0; i<mNumSepTypes; ++i) {
                 mWorkMoleFractions[mSepIndex[i]] -= mSepBufferThru[i];
-                exitFlux                         -= mSepBufferThru[i];
+            }
+            /// - The remaining flux is the sum of the constituents, so that round-off can't leave a
+            ///   flux without a mixture when all constituents are separated.
+            exitFlux = 0.0;
+            for (int i=0; i<nConstituents; ++i) {
+                mWorkMoleFractions[i] = std::max(0.0, mWorkMoleFractions[i]);
+                exitFlux += mWorkMoleFractions[i];
             }
             if (exitFlux > DBL_EPSILON) {
                 /// - Now moleFractions is normalized back into fractions.
-- 
2.43.0


From a266339a13e4fc50f5242018ea9499e3398f6479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:22 +0000
Subject: [PATCH 55/87] fix: reaction heat warms a reactor's fluid in reverse
 flow too

The heat was divided by the signed flow rate, so with flow from port 1 to port 0
an exothermic reaction cooled the fluid.
---
 aspects/fluid/source/GunnsFluidReactor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidReactor.cpp b/aspects/fluid/source/GunnsFluidReactor.cpp
index 37338fd..ecc6491 100644
--- a/aspects/fluid/source/GunnsFluidReactor.cpp
+++ b/aspects/fluid/source/GunnsFluidReactor.cpp
@@ -710,8 +710,9 @@ void GunnsFluidReactor::updateTemperature(const double dt __attribute__((unused)
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsFluidReactor::addRxnHeat(const double dt)
 {
-    const double newHeat = mFlowRate * mInternalFluid->getSpecificEnthalpy() + mProducedHeat / dt;
-    mInternalFluid->setTemperature(mInternalFluid->computeTemperature( newHeat / mFlowRate ));
+    const double flowRate = std::fabs(mFlowRate);
+    const double newHeat  = flowRate * mInternalFluid->getSpecificEnthalpy() + mProducedHeat / dt;
+    mInternalFluid->setTemperature(mInternalFluid->computeTemperature( newHeat / flowRate ));
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 07c9c9d4c739012eb6b081382ce673e02b5e5dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:48 +0000
Subject: [PATCH 56/87] fix: a reactor's source vector is reset when its flow
 stops

The last reaction flows stayed in the network's equations after the reactor was
blocked or the flow stopped.
---
 aspects/fluid/source/GunnsFluidReactor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidReactor.cpp b/aspects/fluid/source/GunnsFluidReactor.cpp
index ecc6491..2057226 100644
--- a/aspects/fluid/source/GunnsFluidReactor.cpp
+++ b/aspects/fluid/source/GunnsFluidReactor.cpp
@@ -762,6 +762,10 @@ void GunnsFluidReactor::transportFluid(const bool forcedOutflow __attribute__((u
 {
     if (checkValidPortNumber(toPort) && checkValidPortNumber(fromPort)) {
 
+        /// - Reset the source vector, so that reaction flows don't persist after the flow stops.
+        mSourceVector[fromPort] = 0.0;
+        mSourceVector[toPort]   = 0.0;
+
         if (mFlowRate > m100EpsilonLimit) {
 
             /// - Move the the conduction flow with mInternalFluid from the upstream node to the
@@ -774,8 +778,6 @@ void GunnsFluidReactor::transportFluid(const bool forcedOutflow __attribute__((u
             ///   respond to the affected total molar flow rate on the next pass.  The source vector
             ///   will be used next pass so there will be a small error in pressure, but mass will
             ///   be conserved and GUNNS washes out pressure errors over time.
-            mSourceVector[fromPort] = 0.0;
-            mSourceVector[toPort]   = 0.0;
             if (mProductsFlowRate > m100EpsilonLimit) {
                 mNodes[toPort]->collectInflux(mProductsFlowRate,  mProductsFluid);
                 mSourceVector[toPort] += mProductsFlowRate  / mProductsFluid->getMWeight();
@@ -797,8 +799,6 @@ void GunnsFluidReactor::transportFluid(const bool forcedOutflow __attribute__((u
             ///   respond to the affected total molar flow rate on the next pass.  The source vector
             ///   will be used next pass so there will be a small error in pressure, but mass will
             ///   be conserved and GUNNS washes out pressure errors over time.
-            mSourceVector[fromPort] = 0.0;
-            mSourceVector[toPort]   = 0.0;
             if (mProductsFlowRate > m100EpsilonLimit) {
                 mNodes[fromPort]->collectInflux(mProductsFlowRate,  mProductsFluid);
                 mSourceVector[fromPort] += mProductsFlowRate  / mProductsFluid->getMWeight();
-- 
2.43.0


From d1d7cbfe060b0d63f8ce688cbc07f429eab9c43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 57/87] fix: adding a second custom sorbant does not invalidate
 those already used by a sorption bed

---
 aspects/fluid/source/GunnsFluidSorptionBed.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aspects/fluid/source/GunnsFluidSorptionBed.hh b/aspects/fluid/source/GunnsFluidSorptionBed.hh
index 24f0c46..8fc4f13 100644
--- a/aspects/fluid/source/GunnsFluidSorptionBed.hh
+++ b/aspects/fluid/source/GunnsFluidSorptionBed.hh
@@ -37,6 +37,7 @@ ASSUMPTIONS AND LIMITATIONS:
 #include "core/GunnsFluidConductor.hh"
 #include "software/SimCompatibility/TsSimCompatibility.hh"
 #include "properties/SorbantProperties.hh"
+#include <deque>
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 /// @brief    Sorption Bed Fluid Indexes
@@ -237,7 +238,7 @@ class GunnsFluidSorptionBedConfigData : public GunnsFluidConductorConfigData
 
     protected:
         DefinedSorbantProperties*      mDefinedSorbants; /**< ** (1) trick_chkpnt_io(**) Properties of defined sorbant types. */
-        std::vector<SorbantProperties> mCustomSorbants;  /**< ** (1) trick_chkpnt_io(**) Properties of custom sorbant types. */
+        std::deque<SorbantProperties>  mCustomSorbants;  /**< ** (1) trick_chkpnt_io(**) Properties of custom sorbant types. */
 
     private:
         /// @brief  Copy constructor unavailable since declared private and not implemented.
-- 
2.43.0


From 23c5b424f2366f5f21553ae6865bcc08ca5952cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 58/87] fix: the stream through a sorption bed has the enthalpy
 of its mixture after each segment

---
 aspects/fluid/source/GunnsFluidSorptionBed.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aspects/fluid/source/GunnsFluidSorptionBed.cpp b/aspects/fluid/source/GunnsFluidSorptionBed.cpp
index 2b9ee6f..9df22eb 100644
--- a/aspects/fluid/source/GunnsFluidSorptionBed.cpp
+++ b/aspects/fluid/source/GunnsFluidSorptionBed.cpp
@@ -537,8 +537,10 @@ void GunnsFluidSorptionBedSegment::update(double& flow, const double pIn, const
         }
     }
 
-    /// - Update bulk fluid and trace compounds constituent mixture fractions in the exit stream.
+    /// - Update bulk fluid and trace compounds constituent mixture fractions in the exit stream,
+    ///   and the stream's enthalpy for the new mixture.
     mFluid->updateMass();
+    mFluid->setTemperature(Tout);
     mHeatFlux = heatFlux;
     mThermCap = thermCap;
     GunnsFluidTraceCompounds* tc = mFluid->getTraceCompounds();
-- 
2.43.0


From 965166f309ebc61a934d23fe7e947e22d418725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 59/87] fix: a sorption bed without flow from an empty node
 doesn't add a NaN source to the network

---
 aspects/fluid/source/GunnsFluidSorptionBed.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidSorptionBed.cpp b/aspects/fluid/source/GunnsFluidSorptionBed.cpp
index 9df22eb..a5aebb6 100644
--- a/aspects/fluid/source/GunnsFluidSorptionBed.cpp
+++ b/aspects/fluid/source/GunnsFluidSorptionBed.cpp
@@ -1022,8 +1022,11 @@ void GunnsFluidSorptionBed::transportFlows(const double dt)
     const double exitFlow = updateSegments(dt, sourceDensity, sourcePort);
 
     /// - Compute total bulk desorbed moles as difference between bulk moles in and out.
-    const double bulkDesorbMoleRate = exitFlow / mInternalFluid->getMWeight()
-                                    - std::fabs(mFlowRate) / mNodes[sourcePort]->getOutflow()->getMWeight();
+    double bulkDesorbMoleRate = 0.0;
+    if (sourceDensity > DBL_EPSILON) {
+        bulkDesorbMoleRate = exitFlow / mInternalFluid->getMWeight()
+                           - std::fabs(mFlowRate) / mNodes[sourcePort]->getOutflow()->getMWeight();
+    }
 
     /// - Transport flow between nodes and correct the source vector for sorption.
     mNodes[sourcePort]->collectOutflux(std::fabs(mFlowRate));
-- 
2.43.0


From a8b4e423ebc1041f623f708a226edd939299475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:38 +0000
Subject: [PATCH 60/87] fix: a sorption bed conserves compounds that are both
 offgassed and sorbed, or offgassed by several sorbates

---
 .../fluid/source/GunnsFluidSorptionBed.cpp    | 60 +++++++++++++------
 aspects/fluid/source/GunnsFluidSorptionBed.hh |  2 +
 2 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidSorptionBed.cpp b/aspects/fluid/source/GunnsFluidSorptionBed.cpp
index a5aebb6..be56d1f 100644
--- a/aspects/fluid/source/GunnsFluidSorptionBed.cpp
+++ b/aspects/fluid/source/GunnsFluidSorptionBed.cpp
@@ -451,6 +451,14 @@ void GunnsFluidSorptionBedSegment::update(double& flow, const double pIn, const
     const double ndot     = flowIn / mFluid->getMWeight();
     double       thermCap = mProperties->computeThermalCapacity(mVolSorbant);
 
+    /// - Initialize the trace compounds in the stream to the inlet flow.
+    GunnsFluidTraceCompounds* tc = mFluid->getTraceCompounds();
+    if (tc and flowIn > DBL_EPSILON) {
+        for (int i=0; i<tc->getConfig()->mNTypes; ++i) {
+            tc->setMass(i, ndot * tc->getMoleFractions()[i] * tc->getConfig()->mCompounds.at(i)->mMWeight);
+        }
+    }
+
     for (unsigned int i=0; i<mNSorbates; ++i) {
         /// - Update equilibrium loading of sorbates.
         const double pp = pIn * mSorbates[i].getMoleFraction(mFluid);
@@ -494,8 +502,27 @@ void GunnsFluidSorptionBedSegment::update(double& flow, const double pIn, const
         ///   segment.
         flow += exchangeFluid(fluidIndex, tcIndex, mdotInBulk, ndotInTc, -mSorbates[i].mAdsorptionRate, molWeight);
 
+        /// - Add heats of sorption to the wall heat flux for output to the thermal aspect.  The
+        ///   sorbate properties returns the heat flux sign as positive for exothermic.
+        heatFlux += mSorbates[i].computeHeatFlux();
+
+        /// - Update total thermal capacity of sorbant + sorbates for output to the thermal aspect.
+        ///   Sorbate loading can significantly change the thermal capacity of the combined sorbant +
+        ///   sorbates mass, for absorbing future heat flux.  We only do this for sorbates that are
+        ///   bulk fluids, since we don't model thermal capacity for trace compounds.
+        if (fluidIndex >= 0) {
+            const double cp = mFluid->getProperties(fluidType)->getSpecificHeat(mTemperature);
+            thermCap += cp * mSorbates[i].mLoadedMass;
+        }
+    }
+
+    /// - Update bulk fluid and trace compounds constituent mixture fractions in the exit stream.
+    updateMixture();
+
+    for (unsigned int i=0; i<mNSorbates; ++i) {
         /// - Compute offgassing produced by adsorption of sorbates, and add the offgas compounds to the
-        ///   exit fluid stream.
+        ///   exit fluid stream.  This follows the exchange of all sorbates, because the offgas
+        ///   compounds may be sorbates too, or be produced by several sorbates.
         if (mSorbates[i].mAdsorptionRate > DBL_EPSILON) {
             const std::vector<SorbateInteractingCompounds>*     offgasCompounds = mSorbates[i].getProperties()->getOffgasCompounds();
             const std::vector<GunnsFluidSorptionBedFluidIndex>* offgasIndexes   = mSorbates[i].getOffgasIndexes();
@@ -509,40 +536,35 @@ void GunnsFluidSorptionBedSegment::update(double& flow, const double pIn, const
                         double offgasTcNdotIn   = 0.0;
                         double offgasMolWeight  = 0.0;
                         if (offgasIndexBulk >= 0) {
-                            offgasBulkMdotIn = flowIn * mFluid->getMassFraction(offgasIndexBulk);
+                            offgasBulkMdotIn = flow * mFluid->getMassFraction(offgasIndexBulk);
                             offgasMolWeight  = mFluid->getProperties(mFluid->getType(offgasIndexBulk))->getMWeight();
                         }
                         if (offgasIndexTc >= 0) {
-                            offgasTcNdotIn  = ndot * mFluid->getTraceCompounds()->getMoleFractions()[offgasIndexTc];
+                            offgasTcNdotIn  = flow / mFluid->getMWeight() * mFluid->getTraceCompounds()->getMoleFractions()[offgasIndexTc];
                             offgasMolWeight = mFluid->getTraceCompounds()->getConfig()->mCompounds.at(offgasIndexTc)->mMWeight;
                         }
                         flow += exchangeFluid(offgasIndexBulk, offgasIndexTc, offgasBulkMdotIn,
                                               offgasTcNdotIn, offgasRate, offgasMolWeight);
+                        updateMixture();
                     }
                 }
             }
         }
-
-        /// - Add heats of sorption to the wall heat flux for output to the thermal aspect.  The
-        ///   sorbate properties returns the heat flux sign as positive for exothermic.
-        heatFlux += mSorbates[i].computeHeatFlux();
-
-        /// - Update total thermal capacity of sorbant + sorbates for output to the thermal aspect.
-        ///   Sorbate loading can significantly change the thermal capacity of the combined sorbant +
-        ///   sorbates mass, for absorbing future heat flux.  We only do this for sorbates that are
-        ///   bulk fluids, since we don't model thermal capacity for trace compounds.
-        if (fluidIndex >= 0) {
-            const double cp = mFluid->getProperties(fluidType)->getSpecificHeat(mTemperature);
-            thermCap += cp * mSorbates[i].mLoadedMass;
-        }
     }
 
-    /// - Update bulk fluid and trace compounds constituent mixture fractions in the exit stream,
-    ///   and the stream's enthalpy for the new mixture.
-    mFluid->updateMass();
+    /// - Update the stream's enthalpy for the new mixture.
     mFluid->setTemperature(Tout);
     mHeatFlux = heatFlux;
     mThermCap = thermCap;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Updates the bulk fluid and trace compounds mixture fractions of the stream from its
+///           constituent masses.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsFluidSorptionBedSegment::updateMixture()
+{
+    mFluid->updateMass();
     GunnsFluidTraceCompounds* tc = mFluid->getTraceCompounds();
     if (tc) {
         tc->updateMoleFractions();
diff --git a/aspects/fluid/source/GunnsFluidSorptionBed.hh b/aspects/fluid/source/GunnsFluidSorptionBed.hh
index 8fc4f13..41b2995 100644
--- a/aspects/fluid/source/GunnsFluidSorptionBed.hh
+++ b/aspects/fluid/source/GunnsFluidSorptionBed.hh
@@ -201,6 +201,8 @@ class GunnsFluidSorptionBedSegment
         /// @brief  Updates fluid masses in the exit stream.
         double exchangeFluid(const int fluidIndex, const int tcIndex, const double mdotInBulk,
                              const double ndotInTc, const double dndot, const double molWeight);
+        /// @brief  Updates the mixture fractions of the exit stream.
+        void   updateMixture();
         /// @brief  Returns the effective sorbant volume including degradation malfunction.
         double computeEffectiveSorbantVolume() const;
 
-- 
2.43.0


From 463564ed50f3a978bf05eda82681e69e6aa1b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 61/87] fix: trace compounds desorbing from a sorption bed
 without flow are not lost

---
 aspects/fluid/source/GunnsFluidSorptionBed.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/aspects/fluid/source/GunnsFluidSorptionBed.cpp b/aspects/fluid/source/GunnsFluidSorptionBed.cpp
index be56d1f..bc54106 100644
--- a/aspects/fluid/source/GunnsFluidSorptionBed.cpp
+++ b/aspects/fluid/source/GunnsFluidSorptionBed.cpp
@@ -1052,11 +1052,24 @@ void GunnsFluidSorptionBed::transportFlows(const double dt)
 
     /// - Transport flow between nodes and correct the source vector for sorption.
     mNodes[sourcePort]->collectOutflux(std::fabs(mFlowRate));
-    mNodes[sinkPort]->collectInflux(exitFlow, mInternalFluid);
+    if (exitFlow > DBL_EPSILON) {
+        mNodes[sinkPort]->collectInflux(exitFlow, mInternalFluid);
+    }
     mSourceVector[sourcePort] = 0.0;
     mSourceVector[sinkPort]   = bulkDesorbMoleRate;
 
     computeAdsorbOutputs();
+
+    /// - Trace compounds that desorb when there's no bulk flow to carry them are given directly to
+    ///   the downstream node.
+    const GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds();
+    if (tc and exitFlow <= DBL_EPSILON) {
+        for (int i=0; i<tc->getConfig()->mNTypes; ++i) {
+            if (mAdsorptionTcRates[i] < 0.0) {
+                static_cast<GunnsFluidNode*>(mNodes[sinkPort])->collectTc(i, -mAdsorptionTcRates[i]);
+            }
+        }
+    }
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From e36cf3506dee0fc3181e5e272c2cfac57a413a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:58 +0000
Subject: [PATCH 62/87] fix: a sorption bed on an empty node reports no
 sorption rates or heat

---
 aspects/fluid/source/GunnsFluidSorptionBed.cpp | 17 +++++++++++++++++
 aspects/fluid/source/GunnsFluidSorptionBed.hh  |  2 ++
 2 files changed, 19 insertions(+)

diff --git a/aspects/fluid/source/GunnsFluidSorptionBed.cpp b/aspects/fluid/source/GunnsFluidSorptionBed.cpp
index bc54106..90307cf 100644
--- a/aspects/fluid/source/GunnsFluidSorptionBed.cpp
+++ b/aspects/fluid/source/GunnsFluidSorptionBed.cpp
@@ -558,6 +558,18 @@ void GunnsFluidSorptionBedSegment::update(double& flow, const double pIn, const
     mThermCap = thermCap;
 }
 
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Zeroes the heat flux and sorbate rates, for when there is no exchange with the fluid.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsFluidSorptionBedSegment::stop()
+{
+    mHeatFlux = 0.0;
+    for (unsigned int i=0; i<mNSorbates; ++i) {
+        mSorbates[i].mLoadingRate    = 0.0;
+        mSorbates[i].mAdsorptionRate = 0.0;
+    }
+}
+
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 /// @details  Updates the bulk fluid and trace compounds mixture fractions of the stream from its
 ///           constituent masses.
@@ -1120,6 +1132,11 @@ double GunnsFluidSorptionBed::updateSegments(const double dt, const double sourc
                 segP = nextSegP;
             }
         }
+    } else {
+        /// - Without sorption or convection, the segments have no rates or heat flux.
+        for (unsigned int i=0; i<mNSegments; ++i) {
+            mSegments[i].stop();
+        }
     }
     return exitFlow;
 }
diff --git a/aspects/fluid/source/GunnsFluidSorptionBed.hh b/aspects/fluid/source/GunnsFluidSorptionBed.hh
index 41b2995..d568a4e 100644
--- a/aspects/fluid/source/GunnsFluidSorptionBed.hh
+++ b/aspects/fluid/source/GunnsFluidSorptionBed.hh
@@ -187,6 +187,8 @@ class GunnsFluidSorptionBedSegment
                   const std::vector<GunnsFluidSorptionBedSegmentInputData>& loading);
         /// @brief  Updates the sorption and propagates the state of this segment over the timestep.
         void update(double& flowIn, const double pIn, const double pOut, const double timestep);
+        /// @brief  Zeroes the heat flux and sorbate rates of this segment.
+        void stop();
         /// @brief  Returns the number of sorbates in this Sorption Bed Segment.
         unsigned int getNSorbates() const;
         /// @brief  Sets and resets the degradation malfunction controls for this segment.
-- 
2.43.0


From 16f8e12485348ee40e0a00d7809f4a32204f5c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:49 +0000
Subject: [PATCH 63/87] fix: equivalent conductor moved the mixture it was
 created with instead of the mixture that flows into it

---
 aspects/fluid/conductor/GunnsFluidEqConductor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/conductor/GunnsFluidEqConductor.cpp b/aspects/fluid/conductor/GunnsFluidEqConductor.cpp
index 7613c23..213b282 100755
--- a/aspects/fluid/conductor/GunnsFluidEqConductor.cpp
+++ b/aspects/fluid/conductor/GunnsFluidEqConductor.cpp
@@ -394,8 +394,12 @@ void GunnsFluidEqConductor::transportFlows(const double dt __attribute__((unused
     /// - Calculate hydraulic power rise from supply to return ports.
     mPower = -UnitConversion::PA_PER_KPA * mVolFlowRate * getDeltaPotential();
 
-    /// - Update the internal fluid temperature with the external network temperature at the port
-    ///   from which flow is returning.
+    /// - Update the internal fluid with the fluid from the source node, since the external network
+    ///   does not change the mixture, and with the external network temperature at the port from
+    ///   which flow is returning.
+    if (std::fabs(mFlowRate) > DBL_EPSILON) {
+        mInternalFluid->setState(mNodes[sourcePort]->getOutflow());
+    }
     if (mFlowRate > DBL_EPSILON) {
         mInternalFluid->setTemperature(mPort1DemandTemperature);
     } else if (mFlowRate < -DBL_EPSILON) {
-- 
2.43.0


From bb27acaffb8639b0466c621865ae83653eed5e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:49 +0000
Subject: [PATCH 64/87] fix: leaks of an equivalent conductor never left the
 network

---
 aspects/fluid/conductor/GunnsFluidEqConductor.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/aspects/fluid/conductor/GunnsFluidEqConductor.cpp b/aspects/fluid/conductor/GunnsFluidEqConductor.cpp
index 213b282..0ed728b 100755
--- a/aspects/fluid/conductor/GunnsFluidEqConductor.cpp
+++ b/aspects/fluid/conductor/GunnsFluidEqConductor.cpp
@@ -369,6 +369,16 @@ void GunnsFluidEqConductor::computeFlows(const double dt __attribute__((unused))
         mPortDirections[0] = NONE;
         mPortDirections[1] = NONE;
     }
+
+    /// - Schedule the external leak outflows from the nodes.
+    const double port0LeakFlux = mPort0LeakConductance * mPotentialVector[0];
+    const double port1LeakFlux = mPort1LeakConductance * mPotentialVector[1];
+    if (port0LeakFlux > 0.0) {
+        mNodes[0]->scheduleOutflux(port0LeakFlux);
+    }
+    if (port1LeakFlux > 0.0) {
+        mNodes[1]->scheduleOutflux(port1LeakFlux);
+    }
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 6a4c21e0071aa936e57312d02bb0df5806a2b6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:49 +0000
Subject: [PATCH 65/87] fix: rocket nozzles with an area ratio near one got a
 subsonic exit Mach number near zero

---
 aspects/fluid/conductor/GunnsFluidSimpleRocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/fluid/conductor/GunnsFluidSimpleRocket.cpp b/aspects/fluid/conductor/GunnsFluidSimpleRocket.cpp
index f53731b..297d16a 100644
--- a/aspects/fluid/conductor/GunnsFluidSimpleRocket.cpp
+++ b/aspects/fluid/conductor/GunnsFluidSimpleRocket.cpp
@@ -565,7 +565,7 @@ void GunnsFluidSimpleRocket::updateExitMach(const double gamma)
             break;
         }
         machPrev = mach;
-        if (ratio > mAreaRatio) {
+        if (ratio > mAreaRatio and mach > 1.0) {
             mach -= delta;
         } else {
             mach += delta;
-- 
2.43.0


From 21da94213d18714a4ff35a3e99c36b268ea4d43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:41 +0000
Subject: [PATCH 66/87] fix: the gas displacement pump transports the mass of
 its source node's current mixture

---
 aspects/fluid/source/GunnsGasDisplacementPump.cpp | 15 +++++++++++++++
 aspects/fluid/source/GunnsGasDisplacementPump.hh  |  2 ++
 2 files changed, 17 insertions(+)

diff --git a/aspects/fluid/source/GunnsGasDisplacementPump.cpp b/aspects/fluid/source/GunnsGasDisplacementPump.cpp
index 389a710..902da04 100644
--- a/aspects/fluid/source/GunnsGasDisplacementPump.cpp
+++ b/aspects/fluid/source/GunnsGasDisplacementPump.cpp
@@ -321,6 +321,21 @@ void GunnsGasDisplacementPump::updateState(const double dt)
     }
 }
 
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] dt       (s)    Time step.
+///
+/// @returns  void
+///
+/// @details  Copies the source node outflow to the internal fluid before the base class converts
+///           the molar flow to mass with it, since the source node may have changed mixture since
+///           the last pass.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsGasDisplacementPump::transportFlows(const double dt)
+{
+    mInternalFluid->setState(mNodes[determineSourcePort(mFlux, 0, 1)]->getOutflow());
+    GunnsFluidSource::transportFlows(dt);
+}
+
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 /// @param[in] dt       (s)    Time step.
 /// @param[in] flowRate (kg/s) Mass flow rate.
diff --git a/aspects/fluid/source/GunnsGasDisplacementPump.hh b/aspects/fluid/source/GunnsGasDisplacementPump.hh
index 3a972ba..f8d9a54 100644
--- a/aspects/fluid/source/GunnsGasDisplacementPump.hh
+++ b/aspects/fluid/source/GunnsGasDisplacementPump.hh
@@ -162,6 +162,8 @@ class GunnsGasDisplacementPump : public GunnsFluidSource
         virtual void restartModel();
         /// @brief    Virtual interface for application of cavitation in derived classes.
         virtual void applyCavitation(const double dt);
+        /// @brief    Transports flow between nodes with the fluid of the source node.
+        virtual void transportFlows(const double dt);
         /// @brief    Transports flow between nodes specifying source node mixture option.
         virtual void transportFluidMixtureOption();
 
-- 
2.43.0


From 0dd80cbce0f722ce9fb30ebb2566a418a65612ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:55 +0000
Subject: [PATCH 67/87] fix: reverse flow through a rocket was converted to
 mass with the wrong node's molecular weight

---
 aspects/fluid/conductor/GunnsFluidSimpleRocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/fluid/conductor/GunnsFluidSimpleRocket.cpp b/aspects/fluid/conductor/GunnsFluidSimpleRocket.cpp
index 297d16a..6ba59cb 100644
--- a/aspects/fluid/conductor/GunnsFluidSimpleRocket.cpp
+++ b/aspects/fluid/conductor/GunnsFluidSimpleRocket.cpp
@@ -662,7 +662,7 @@ void GunnsFluidSimpleRocket::computeFlows(const double dt __attribute__((unused)
 void GunnsFluidSimpleRocket::transportFlows(const double dt __attribute__((unused)))
 {
     /// - Convert the molar flow rate to mass rate using the molecular weight of the source node.
-    mFlowRate = mFlux * mNodes[0]->getOutflow()->getMWeight();
+    mFlowRate = mFlux * mNodes[determineSourcePort(mFlux, 0, 1)]->getOutflow()->getMWeight();
 
     /// - This characteristic velocity can be used to tune the config data term for faster
     ///   convergence to steady-state during startup.  Hill & Peterson, Eqn. 11.8:
-- 
2.43.0


From 04585cdc567d7172d284da46757f21aaed1f5643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:40 +0000
Subject: [PATCH 68/87] fix: CholeskyLdu skips positive off-diagonals and
 misfactors general positive definite matrices

---
 ms-utils/math/linear_algebra/CholeskyLdu.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ms-utils/math/linear_algebra/CholeskyLdu.cpp b/ms-utils/math/linear_algebra/CholeskyLdu.cpp
index 46bb1ca..592b0a9 100644
--- a/ms-utils/math/linear_algebra/CholeskyLdu.cpp
+++ b/ms-utils/math/linear_algebra/CholeskyLdu.cpp
@@ -78,8 +78,9 @@ void CholeskyLdu::Decompose(double *A, int n)
         for (int j = 0; j < i; j++, p_j += n) {
             const double limit = -1.0E-100;
             for (int k = 0; k < j; k++) {
-                /// - Skip operations on zero to save time.
-                if (limit > *(p_i + k) and limit > *(p_j + k)) {
+                /// - Skip operations on zero to save time.  Either sign is a valid off-diagonal.
+                if ((limit > *(p_i + k) or -limit < *(p_i + k)) and
+                    (limit > *(p_j + k) or -limit < *(p_j + k))) {
                     *(p_i + j) -= *(p_i + k) * *(p_j + k);
                 }
             }
@@ -157,8 +158,9 @@ void CholeskyLdu::Decompose(double *A, int n, std::vector<int>& r)
             double *p_i_k = p_i;
             double *p_j_k = p_j;
             for (int k = 0; k < j; k++, p_i_k += vrk[k], p_j_k += vrk[k]) {
-                /// - Skip operations on zero to save time.
-                if (limit > *(p_i_k) and limit > *(p_j_k)) {
+                /// - Skip operations on zero to save time.  Either sign is a valid off-diagonal.
+                if ((limit > *(p_i_k) or -limit < *(p_i_k)) and
+                    (limit > *(p_j_k) or -limit < *(p_j_k))) {
                     *(p_i_j) -= *(p_i_k) * *(p_j_k);
                 }
             }
-- 
2.43.0


From 7affa80c82c2da7b51a1703ee42cab8abcdf0248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:59 +0000
Subject: [PATCH 69/87] fix: rigid body rotational equations with an offset CM
 mix the CM and body origin reference points

---
 .../GunnsDynSingleRigidStateDeriv.cpp         | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp b/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp
index 5c91331..237bbea 100755
--- a/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp
+++ b/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp
@@ -247,6 +247,14 @@ void GunnsDynSingleRigidStateDeriv::buildSourceVector()
         mSourceVector[0] -= mGyroForce[0];
         mSourceVector[1] -= mGyroForce[1];
         mSourceVector[2] -= mGyroForce[2];
+
+        /// - The rotational equations are about the body frame origin, so the pseudo-force also acts
+        ///   through the CM offset:  {cm} X {gyro_force}
+        double gyroForceTorque[3];
+        GunnsDynUtils::crossV3(gyroForceTorque, mMassProps.mCM, mGyroForce);
+        mSourceVector[3] -= gyroForceTorque[0];
+        mSourceVector[4] -= gyroForceTorque[1];
+        mSourceVector[5] -= gyroForceTorque[2];
     } else {
         GunnsDynUtils::zeroV(mGyroForce, 3);
     }
@@ -275,18 +283,12 @@ void GunnsDynSingleRigidStateDeriv::sumAppliedForces()
 void GunnsDynSingleRigidStateDeriv::sumAppliedTorques()
 {
     GunnsDynUtils::zeroV(mAppliedTorque, 3);
-    const bool isCmOffset = mMassProps.isCmOffset();
     for (unsigned int i=0; i<mAppliedForces.size(); ++i) {
         if (mAppliedForces[i]->mActive) {
-            /// - Add applied force location crossed with the force.  The force locations are in the
-            ///   body frame so we must move them to relative to the CM when there's a CM offset.
-            double location[3];
+            /// - Add applied force location crossed with the force.  The force locations and the
+            ///   rotational equations are both relative to the body frame origin.
             double torque[3];
-            GunnsDynUtils::setV(location, mAppliedForces[i]->mLocation, 3);
-            if (isCmOffset) {
-                GunnsDynUtils::subtractV(location, location, mMassProps.mCM, 3);
-            }
-            GunnsDynUtils::crossV3(torque, location, mAppliedForces[i]->mForce);
+            GunnsDynUtils::crossV3(torque, mAppliedForces[i]->mLocation, mAppliedForces[i]->mForce);
             GunnsDynUtils::addV(mAppliedTorque, mAppliedTorque, torque, 3);
         }
     }
-- 
2.43.0


From 62b0d939807dd2b09f9345d44a9726a74011c425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:31 +0000
Subject: [PATCH 70/87] fix: gradient descent accepts a null initial state or a
 variable count that doesn't match its inputs

---
 core/optimization/GunnsOptimGradientDescent.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/optimization/GunnsOptimGradientDescent.cpp b/core/optimization/GunnsOptimGradientDescent.cpp
index 5738697..7f28a39 100755
--- a/core/optimization/GunnsOptimGradientDescent.cpp
+++ b/core/optimization/GunnsOptimGradientDescent.cpp
@@ -218,6 +218,14 @@ void GunnsOptimGradientDescent::validate()
     if (mConfigData.mMaxEpoch < 1) {
         throw std::range_error(mName + " config data max epoch < 1.");
     }
+
+    /// - Throw if the config initial state is missing, or doesn't match the MC input variables.
+    if (not mConfigData.mInitialState) {
+        throw std::range_error(mName + " config data initial state is null.");
+    }
+    if (mConfigData.mNumVars != mInStatesMaster->size()) {
+        throw std::range_error(mName + " config data # MC variables doesn't match the MC inputs.");
+    }
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From a4e4d9b7f89a8914df4e3cae87e287e5ba4e9fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:51 +0000
Subject: [PATCH 71/87] fix: optimizer input constraints use stale model values
 instead of the state being tried

---
 core/optimization/GunnsOptimBase.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/optimization/GunnsOptimBase.cpp b/core/optimization/GunnsOptimBase.cpp
index 0b60583..fbcd0bc 100755
--- a/core/optimization/GunnsOptimBase.cpp
+++ b/core/optimization/GunnsOptimBase.cpp
@@ -112,7 +112,13 @@ void GunnsOptimBase::constrainInputs(std::vector<double>& vec)
     if (vec.size() != mInStatesMaster->size()) {
         throw std::range_error(mName + " constrainInputs vec argument size mismatch with number of MC inputs.");
     }
+    /// - Give the values being constrained to the MC inputs first, since the constraints are functions
+    ///   of the other MC inputs.
+    for (unsigned int i=0; i<vec.size(); ++i) {
+        *mInStatesMaster->at(i).mAddress = vec.at(i);
+    }
     for (unsigned int i=0; i<vec.size(); ++i) {
         mInStatesMaster->at(i).applyConstraints(&vec.at(i));
+        *mInStatesMaster->at(i).mAddress = vec.at(i);
     }
 }
-- 
2.43.0


From a2b67ed3044942fc96701b4a9944cb5c514927bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 72/87] fix: particle swarm restart misreads state files with
 infinite or not-a-number costs

---
 core/optimization/GunnsOptimParticleSwarm.cpp | 30 ++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/core/optimization/GunnsOptimParticleSwarm.cpp b/core/optimization/GunnsOptimParticleSwarm.cpp
index ee05b6e..5f6de9c 100755
--- a/core/optimization/GunnsOptimParticleSwarm.cpp
+++ b/core/optimization/GunnsOptimParticleSwarm.cpp
@@ -17,6 +17,7 @@ LIBRARY DEPENDENCY:
 
 /// - System includes:
 #include <cfloat>
+#include <cstdlib>
 #include <iostream>
 #include <sstream>
 #include <fstream>
@@ -381,6 +382,21 @@ void GunnsOptimParticleSwarm::minMaxSwarmState()
     }
 }
 
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in,out] in (--) The input stream to read from.
+///
+/// @returns double (--) The next value in the stream.
+///
+/// @details  Reads the next value from the stream.  Unlike extracting a double from the stream, this
+///           also reads the infinite or not-a-number costs that shutdown writes for diverged runs.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+static double readValue(std::istream& in)
+{
+    std::string token;
+    in >> token;
+    return std::strtod(token.c_str(), 0);
+}
+
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 /// @param[in] continuous (--) If true, also reads velocity and best state.
 ///
@@ -423,24 +439,24 @@ void GunnsOptimParticleSwarm::readFileSwarmState(const bool continuous)
             in >> epoch;
             if (line < 2) {
                 /// - Initialize the global best state from the 1st line (header is 0th line).
-                in >> mGlobalBestState.mCost;
+                mGlobalBestState.mCost = readValue(in);
                 for (unsigned int i=0; i<mInStatesMaster->size(); ++i) {
-                    in >> mGlobalBestState.mState.at(i);
+                    mGlobalBestState.mState.at(i) = readValue(in);
                 }
             } else if (line < mParticles.size() + 2) {
                 /// - Initialize the particle states from the subsequent lines.
-                in >> mParticles.at(line-2).mCurrentState.mCost;
+                mParticles.at(line-2).mCurrentState.mCost = readValue(in);
                 for (unsigned int i=0; i<mInStatesMaster->size(); ++i) {
-                    in >> mParticles.at(line-2).mCurrentState.mState.at(i);
+                    mParticles.at(line-2).mCurrentState.mState.at(i) = readValue(in);
                 }
                 /// - For continuous propagation, also read the velocity and best state.
                 if (continuous) {
                     for (unsigned int i=0; i<mInStatesMaster->size(); ++i) {
-                        in >> mParticles.at(line-2).mCurrentState.mVelocity.at(i);
+                        mParticles.at(line-2).mCurrentState.mVelocity.at(i) = readValue(in);
                     }
-                    in >> mParticles.at(line-2).mBestState.mCost;
+                    mParticles.at(line-2).mBestState.mCost = readValue(in);
                     for (unsigned int i=0; i<mInStatesMaster->size(); ++i) {
-                        in >> mParticles.at(line-2).mBestState.mState.at(i);
+                        mParticles.at(line-2).mBestState.mState.at(i) = readValue(in);
                     }
                 }
             }
-- 
2.43.0


From 953e1823f85e14828fae73c0dec216ef3f0fe457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:57 +0000
Subject: [PATCH 73/87] fix: message queue checks for empty outside its lock,
 so two consumers replay old messages

---
 ms-utils/simulation/hs/TsHsMsgQueue.cpp | 53 ++++++++++++++++++++-----
 ms-utils/simulation/hs/TsHsMsgQueue.hh  |  6 +--
 2 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/ms-utils/simulation/hs/TsHsMsgQueue.cpp b/ms-utils/simulation/hs/TsHsMsgQueue.cpp
index 685917a..4569199 100644
--- a/ms-utils/simulation/hs/TsHsMsgQueue.cpp
+++ b/ms-utils/simulation/hs/TsHsMsgQueue.cpp
@@ -112,13 +112,41 @@ int TsHsMsgQueue::getCapacity() const
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 int TsHsMsgQueue::getSize() const
 {
-    if (mHead == 0 || mTail == 0 || mAllocatedSize == 0)
-       return 0;
+    int size = 0;
 
-    if (mHead <= mTail)
-       return mTail-mHead;
-    else
-       return mAllocatedSize - (mHead-mTail);
+    pthread_mutex_lock(&mMutex);
+    if (mHead != 0 && mTail != 0 && mAllocatedSize != 0)
+    {
+        if (mHead <= mTail)
+            size = mTail-mHead;
+        else
+            size = mAllocatedSize - (mHead-mTail);
+    }
+    pthread_mutex_unlock(&mMutex);
+
+    return size;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details   Returns true if the queue is empty.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+bool TsHsMsgQueue::isEmpty() const
+{
+    pthread_mutex_lock(&mMutex);
+    const bool empty = (mHead == mTail);
+    pthread_mutex_unlock(&mMutex);
+    return empty;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details   Returns true if the queue is full.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+bool TsHsMsgQueue::isFull() const
+{
+    pthread_mutex_lock(&mMutex);
+    const bool full = (mTail->mNext == mHead);
+    pthread_mutex_unlock(&mMutex);
+    return full;
 }
 
 
@@ -167,7 +195,7 @@ void TsHsMsgQueue::insertMsg(
     {
         if (pthread_mutex_trylock(&mMutex) != 0) // non-0 means lock failed
         {
-            mTryLockFailures++;
+            __sync_fetch_and_add(&mTryLockFailures, 1); // we don't hold the lock here
             return;
         }
     }
@@ -183,7 +211,7 @@ void TsHsMsgQueue::insertMsg(
     mTail->mTimestamp = timestamp;
 
     // If we have filled the queue, overwrite the oldest node by moving the read pointer
-    if (isFull())
+    if (mTail->mNext == mHead)
     {
         //cout << "overwriting message '" << mtext << "'" << endl;
         mHead = mHead->mNext;
@@ -222,11 +250,14 @@ void TsHsMsgQueue::insertMsg(TsHsMsgQueueNode& node)
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 bool TsHsMsgQueue::removeMsg(TsHsMsgQueueNode& node)
 {
+    pthread_mutex_lock(&mMutex);
+
     // Return false if the the queue is empty
-    if (isEmpty())
+    if (mHead == mTail)
+    {
+        pthread_mutex_unlock(&mMutex);
         return false;
-
-    pthread_mutex_lock(&mMutex);
+    }
 
     // Copy message at head of queue to return node
     node.mFile      = mHead->mFile;
diff --git a/ms-utils/simulation/hs/TsHsMsgQueue.hh b/ms-utils/simulation/hs/TsHsMsgQueue.hh
index a3ea536..fc3e26a 100644
--- a/ms-utils/simulation/hs/TsHsMsgQueue.hh
+++ b/ms-utils/simulation/hs/TsHsMsgQueue.hh
@@ -112,10 +112,10 @@ public:
     int getOverflows() const { return mOverflowCount; }
 
     /// @brief Returns true if the queue is empty.
-    bool isEmpty() const { return mHead == mTail; }
+    bool isEmpty() const;
 
     /// @brief Returns true if the queue is full.
-    bool isFull() const { return mTail->mNext == mHead; }
+    bool isFull() const;
 
     /// @brief Return the capacity of the queue.
     int getCapacity() const;
@@ -149,7 +149,7 @@ protected:
     TsHsMsgQueueNode* mTail;              // ** (--) Points to next node to insert
     TsHsMsgQueueNode* mHead;              // ** (--) Points to next node to remove
 
-    pthread_mutex_t   mMutex;             // ** (--) Place holder for mutex
+    mutable pthread_mutex_t mMutex;       // ** (--) Place holder for mutex
 
     bool              mBlocking;          //    (--) If the queue is busy, we can choose to block, or we can choose to discard the message.
     int               mTryLockFailures;   // *o (--) trick_chkpnt_io(*io) Number of messages skipped due to mutex conflicts.
-- 
2.43.0


From 1bffc41114c82d90ec4b85e84503c16dcab008a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:57 +0000
Subject: [PATCH 74/87] fix: message filter never purges its first message and
 breaks a history of one

---
 ms-utils/simulation/hs/TsHsMsgStdFilter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp b/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp
index fa3c65b..7ae5d4c 100644
--- a/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp
+++ b/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp
@@ -97,7 +97,7 @@ void TsHsMsgStdFilter::purgeMessages()
 
     TsHsMessageMap::iterator oldest = mMessageMap.begin();
 
-    for (TsHsMessageMap::iterator iter = ++oldest; iter != mMessageMap.end(); iter++)
+    for (TsHsMessageMap::iterator iter = oldest; iter != mMessageMap.end(); iter++)
     {
         if ((*iter).second.back() < (*oldest).second.back())
         {
-- 
2.43.0


From 255de2e3b001fd79da1a6aed7c4d09d11d8a0039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:57 +0000
Subject: [PATCH 75/87] fix: health and status manager, filter and plugins lose
 counts and share time buffers between threads

---
 ms-utils/simulation/hs/TsHsConsolePlugin.cpp |  5 +++--
 ms-utils/simulation/hs/TsHsMsgStdFilter.cpp  |  2 +-
 ms-utils/simulation/hs/TsHsStdMngr.cpp       | 10 +++++-----
 ms-utils/simulation/hs/TsHsTextPlugin.cpp    |  5 +++--
 4 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/ms-utils/simulation/hs/TsHsConsolePlugin.cpp b/ms-utils/simulation/hs/TsHsConsolePlugin.cpp
index 3499e68..a975b8c 100644
--- a/ms-utils/simulation/hs/TsHsConsolePlugin.cpp
+++ b/ms-utils/simulation/hs/TsHsConsolePlugin.cpp
@@ -47,7 +47,8 @@ static std::string message_timestamp(time_t* unix_time)
    // An ISO-8601 compliant timestamp:
    //   YYYY-MM-DDThh:mm:ssTZD (eg 1997-07-16T19:20:30+01:00)
 
-   struct tm* t = gmtime(unix_time);
+   struct tm  utc;
+   struct tm* t = gmtime_r(unix_time, &utc);
 
    std::ostringstream timestamp;
    timestamp << std::right << setw(4) << setfill('0') << t->tm_year+1900 << "-";
@@ -210,7 +211,7 @@ bool TsHsConsolePlugin::msg(
         }
         else
         {
-            mTryLockFailures++;
+            __sync_fetch_and_add(&mTryLockFailures, 1); // we don't hold the lock here
         }
     }
 
diff --git a/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp b/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp
index 7ae5d4c..96984a3 100644
--- a/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp
+++ b/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp
@@ -156,7 +156,7 @@ bool TsHsMsgStdFilter::shouldSendMessage(
         // Skip logging the message if there's a mutex conflict
         if (pthread_mutex_trylock(&mResourceLock) != 0) // non-0 means lock failed
         {
-            ++mTryLockFailures;
+            __sync_fetch_and_add(&mTryLockFailures, 1); // we don't hold the lock here
             return false;
         }
     }
diff --git a/ms-utils/simulation/hs/TsHsStdMngr.cpp b/ms-utils/simulation/hs/TsHsStdMngr.cpp
index d892c70..a84913c 100644
--- a/ms-utils/simulation/hs/TsHsStdMngr.cpp
+++ b/ms-utils/simulation/hs/TsHsStdMngr.cpp
@@ -207,7 +207,7 @@ void TsHsStdMngr::freeze_init()
 {
     // Tell the helper thread's job to terminate on it's next iteration. It won't be restarted
     // while in freeze mode. The freeze job will assume control of the message queue.
-    mUseHelperThread = false;
+    __atomic_store_n(&mUseHelperThread, false, __ATOMIC_RELEASE);
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -233,7 +233,7 @@ void TsHsStdMngr::freeze()
 void TsHsStdMngr::unfreeze()
 {
     // Reenable the helper thread's job.
-    mUseHelperThread = true;
+    __atomic_store_n(&mUseHelperThread, true, __ATOMIC_RELEASE);
 }
 
 
@@ -291,7 +291,7 @@ void TsHsStdMngr::msg(
    const std::string& subsys,
    const std::string& mtext)
 {
-    mRequestCount++;
+    __sync_fetch_and_add(&mRequestCount, 1); // messages can come from any thread
 
     // Initialize MET to an obviously invalid value
     TS_TIMER_TYPE met = {-1, 99, 23, 59, 59, -9999.0, 0};
@@ -339,7 +339,7 @@ void TsHsStdMngr::inputOutputThread()
 
     // We let the loop terminate if there is no work to do. Trick will restart it. We do this in hopes that
     // the free up some cpu cycles for other jobs, otherwise we'd spin and burn-up everything.
-    while (mUseHelperThread && !mMsgQueue.isEmpty())
+    while (__atomic_load_n(&mUseHelperThread, __ATOMIC_ACQUIRE) && !mMsgQueue.isEmpty())
     {
         // Process a queue node, if any. It's okay if the queue is empty.
         processQueueNode(node);
@@ -377,7 +377,7 @@ void TsHsStdMngr::shutdown()
     // Tell the helper thread's job to terminate on it's next iteration. It won't be restarted
     // when in shutdown mode. The async thread itself will be terminated by trick just before trick
     // terminates.
-    mUseHelperThread = false;
+    __atomic_store_n(&mUseHelperThread, false, __ATOMIC_RELEASE);
 
     // It's okay if there is some overlap in which both the helper and shutdown are trying to
     // process the queue. The queue is thread safe.
diff --git a/ms-utils/simulation/hs/TsHsTextPlugin.cpp b/ms-utils/simulation/hs/TsHsTextPlugin.cpp
index cca809f..8c1b042 100644
--- a/ms-utils/simulation/hs/TsHsTextPlugin.cpp
+++ b/ms-utils/simulation/hs/TsHsTextPlugin.cpp
@@ -48,7 +48,8 @@ static std::string message_timestamp(time_t* unix_time)
    // An ISO-8601 compliant timestamp:
    //   YYYY-MM-DDThh:mm:ssTZD (eg 1997-07-16T19:20:30+01:00)
 
-   struct tm* t = gmtime(unix_time);
+   struct tm  utc;
+   struct tm* t = gmtime_r(unix_time, &utc);
 
    std::ostringstream timestamp;
    timestamp << std::right << setw(4) << setfill('0') << t->tm_year+1900 << "-";
@@ -253,7 +254,7 @@ bool TsHsTextPlugin::msg(
         }
         else
         {
-            mTryLockFailures++;
+            __sync_fetch_and_add(&mTryLockFailures, 1); // we don't hold the lock here
         }
     }
 
-- 
2.43.0


From b29d2a29eb839b70834733a1092e297fa3fe7a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:57 +0000
Subject: [PATCH 76/87] fix: health and status path overrides ignored when
 HS_CONFIG_PATH has no configuration file

---
 ms-utils/simulation/hs/TsHsConfig.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ms-utils/simulation/hs/TsHsConfig.cpp b/ms-utils/simulation/hs/TsHsConfig.cpp
index 75a7181..9fa8f03 100644
--- a/ms-utils/simulation/hs/TsHsConfig.cpp
+++ b/ms-utils/simulation/hs/TsHsConfig.cpp
@@ -159,6 +159,8 @@ bool TsHsConfig::getConfigInfo()
       return(load_status);
    }
 
+   // no file, so use default values
+   applyPathOverrides();
    return true;
 }
 
-- 
2.43.0


From 21aacc2b0f7c8a0f98717fe5ce6fb53c883fe843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:57 +0000
Subject: [PATCH 77/87] fix: mission timer shows wrong hours and minutes before
 launch

---
 ms-utils/simulation/timer/TS_timer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ms-utils/simulation/timer/TS_timer.c b/ms-utils/simulation/timer/TS_timer.c
index 48077e8..e0b5daa 100644
--- a/ms-utils/simulation/timer/TS_timer.c
+++ b/ms-utils/simulation/timer/TS_timer.c
@@ -74,8 +74,8 @@ void TS_timer_update(TS_TIMER_TYPE *timer_ptr, double dt)
    // Multiply by pre-launch flag so that these display (time) variables are not negative
    //------------------------------------------------------------
    days  = pre * ( (int)seconds / 86400 );
-   hours = pre * ( (int)(seconds / 3600) - (days * 24) );
-   mins  = pre * ( (int)(seconds / 60) - (days * 1440) - (hours * 60) );
+   hours = pre * ( (int)seconds % 86400 / 3600 );
+   mins  = pre * ( (int)seconds % 3600 / 60 );
    secs  = pre * ( (int)seconds % 60 );
 
    timer_ptr->pre     = pre;
-- 
2.43.0


From fc2442c98fb50b7bb4f7e7f107dee20022e61419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:56 +0000
Subject: [PATCH 78/87] fix: text log goes to the file without time stamp after
 a restart

---
 ms-utils/simulation/hs/TsHsTextPlugin.cpp | 6 ++++--
 ms-utils/simulation/hs/TsHsTextPlugin.hh  | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/ms-utils/simulation/hs/TsHsTextPlugin.cpp b/ms-utils/simulation/hs/TsHsTextPlugin.cpp
index 8c1b042..8c36af1 100644
--- a/ms-utils/simulation/hs/TsHsTextPlugin.cpp
+++ b/ms-utils/simulation/hs/TsHsTextPlugin.cpp
@@ -70,6 +70,7 @@ static std::string message_timestamp(time_t* unix_time)
 TsHsTextPlugin::TsHsTextPlugin(int id) :
     TsHsOutputPlugin(id),
     mFilename(""),
+    mFileSuffix(""),
     mFirstpass(true),
     mOverwrite(true),
     mTryLockFailures(0),
@@ -95,7 +96,7 @@ TsHsTextPlugin::~TsHsTextPlugin()
 void TsHsTextPlugin::configure(const TsHsPluginConfig& configData)
 {
     mEnabled   = configData.mEnabled;
-    mFilename  = configData.mPath;
+    mFilename  = configData.mPath + mFileSuffix;
     mOverwrite = configData.mOverwrite;
     mBlocking  = configData.mBlocking;
 }
@@ -120,7 +121,8 @@ bool TsHsTextPlugin::init(void)
         // file, otherwise overwrite the existing one.
         if (!mOverwrite)
         {
-            mFilename += tsHsFileTimestamp();
+            mFileSuffix = tsHsFileTimestamp();
+            mFilename += mFileSuffix;
         }
 
         FILE* fp = fopen(mFilename.c_str(), "w");
diff --git a/ms-utils/simulation/hs/TsHsTextPlugin.hh b/ms-utils/simulation/hs/TsHsTextPlugin.hh
index 73d4960..933900f 100644
--- a/ms-utils/simulation/hs/TsHsTextPlugin.hh
+++ b/ms-utils/simulation/hs/TsHsTextPlugin.hh
@@ -69,6 +69,7 @@ protected:
     bool insertMessage(const std::string& message);
 
     std::string     mFilename;        // ** (--) Output file name
+    std::string     mFileSuffix;      // ** (--) Timestamp appended to the file name when not overwriting
     bool            mFirstpass;       // ** (--) Used to determine when to create a new file
     bool            mOverwrite;       // ** (--) Overwrite file or use multiple files with timestamps
     int             mTryLockFailures; // ** (--) Number of times trylock failed to get the lock (== number of dropped messages)
-- 
2.43.0


From 868af5b569c5c08e678f39d64b2f48bd34f91652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:24 +0000
Subject: [PATCH 79/87] fix: TinyXML no longer loops for ever on element text
 that reaches the end of the data

---
 ms-utils/parsing/tinyxml/tinyxmlparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/parsing/tinyxml/tinyxmlparser.cpp b/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
index d5ca61c..a524be8 100644
--- a/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
+++ b/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
@@ -1532,7 +1532,7 @@ const char* TiXmlText::Parse( const char* p, TiXmlParsingData* data, TiXmlEncodi
 
 		const char* end = "<";
 		p = ReadText( p, &value, ignoreWhite, end, false, encoding );
-		if ( p )
+		if ( p && *p )
 			return p-1;	// don't truncate the '<'
 		return 0;
 	}
-- 
2.43.0


From 6719300fce300d8aada931b7996ef8f4a62e459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:24 +0000
Subject: [PATCH 80/87] fix: TinyXML location tracking advances past a
 truncated UTF-8 lead byte

---
 ms-utils/parsing/tinyxml/tinyxmlparser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ms-utils/parsing/tinyxml/tinyxmlparser.cpp b/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
index a524be8..4923295 100644
--- a/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
+++ b/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
@@ -270,6 +270,12 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
 						else
 							{ p +=3; ++col; }	// A normal character.
 					}
+					else
+					{
+						// A truncated sequence at the end of the data.
+						++p;
+						++col;
+					}
 				}
 				else
 				{
-- 
2.43.0


From 1c3100ee0bd190f9b4cb4aa77a565507cb7e4e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:24 +0000
Subject: [PATCH 81/87] fix: TinyXML does not read past the end of the data on
 a truncated UTF-8 sequence

---
 ms-utils/parsing/tinyxml/tinyxml.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ms-utils/parsing/tinyxml/tinyxml.hh b/ms-utils/parsing/tinyxml/tinyxml.hh
index 59463be..b15a30d 100644
--- a/ms-utils/parsing/tinyxml/tinyxml.hh
+++ b/ms-utils/parsing/tinyxml/tinyxml.hh
@@ -368,9 +368,11 @@ protected:
 		{
 			//strncpy( _value, p, *length );	// lots of compilers don't like this function (unsafe),
 												// and the null terminator isn't needed
-			for( int i=0; p[i] && i<*length; ++i ) {
+			int i=0;
+			for( ; i<*length && p[i]; ++i ) {
 				_value[i] = p[i];
 			}
+			*length = i;	// a sequence cut short by the end of the data
 			return p + (*length);
 		}
 		else
-- 
2.43.0


From 537af581190c048abb41598eecafad2cada80393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:25 +0000
Subject: [PATCH 82/87] fix: TinyXML declaration cut short by the end of the
 data is not dereferenced

---
 ms-utils/parsing/tinyxml/tinyxmlparser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ms-utils/parsing/tinyxml/tinyxmlparser.cpp b/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
index 4923295..294bf72 100644
--- a/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
+++ b/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
@@ -1599,6 +1599,10 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
 		}
 
 		p = SkipWhiteSpace( p, _encoding );
+		if ( !p || !*p )
+		{
+			break;
+		}
 		if ( StringEqual( p, "version", true, _encoding ) )
 		{
 			TiXmlAttribute attrib;
-- 
2.43.0


From dd2ca53582224bcb5ac7f87755c45c7960982e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:25 +0000
Subject: [PATCH 83/87] fix: XML file search recognises the extension of files
 whose name starts with a dash

---
 ms-utils/fileSearch/XmlFileSearch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/fileSearch/XmlFileSearch.cpp b/ms-utils/fileSearch/XmlFileSearch.cpp
index c345721..ae479ad 100644
--- a/ms-utils/fileSearch/XmlFileSearch.cpp
+++ b/ms-utils/fileSearch/XmlFileSearch.cpp
@@ -116,7 +116,7 @@ std::string XmlFileSearch::obtainExt(
     std::string ext = "";
 
     //Finds the last period character of the file name
-    if((pathName.compare(".")) != static_cast<int>(std::string::npos))
+    if(pathName.find(".") != std::string::npos)
     {
         int period = pathName.find_last_of(".");
 
-- 
2.43.0


From 1dedd7a924955d2044b7f0c94a7eabcced736525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:25 +0000
Subject: [PATCH 84/87] fix: Rankine to Celsius conversion uses the ice point

---
 ms-utils/units/TS_conversions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/units/TS_conversions.c b/ms-utils/units/TS_conversions.c
index 449f95b..407faa1 100644
--- a/ms-utils/units/TS_conversions.c
+++ b/ms-utils/units/TS_conversions.c
@@ -307,7 +307,7 @@ double TS_convert_degR_to_degF(                     // RETURN  F   temperature i
 double TS_convert_degR_to_degC(                     // RETURN  C   temperature in Celsius
                                  double  temperature) // IN      R   temperature in Rankine
 {
-    return ( (temperature - 459.67) * 5.0 / 9.0 );
+    return ( (temperature - 491.67) * 5.0 / 9.0 );
 }
 
 double TS_convert_degR_to_degK(                     // RETURN  K   temperature in Kelvin
-- 
2.43.0


From 6e359571b1e2df07e12ca2702090e4a7abf67cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:22 +0000
Subject: [PATCH 85/87] fix: TinyXML streaming does not abort on a CDATA mark
 inside a closing tag

---
 ms-utils/parsing/tinyxml/tinyxmlparser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ms-utils/parsing/tinyxml/tinyxmlparser.cpp b/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
index 294bf72..7de319a 100644
--- a/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
+++ b/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
@@ -986,12 +986,11 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
 				in->get();
 
 				// Early out if we find the CDATA id.
-				if ( c == '[' && tag->size() >= 9 )
+				if ( !closingTag && c == '[' && tag->size() >= 9 )
 				{
 					std::size_t len = tag->size();
 					const char* start = tag->c_str() + len - 9;
 					if ( strcmp( start, "<![CDATA[" ) == 0 ) {
-						assert( !closingTag );
 						break;
 					}
 				}
-- 
2.43.0


From 3fd8cbd45c2106bd7b50335df938c877a534b731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:23 +0000
Subject: [PATCH 86/87] fix: electrical distributed interface demands the power
 its voltage source delivers after a rejected minor step

---
 .../electrical/PowerBus/GunnsElectDistributedIf.cpp   | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/aspects/electrical/PowerBus/GunnsElectDistributedIf.cpp b/aspects/electrical/PowerBus/GunnsElectDistributedIf.cpp
index 98659c3..7aa2918 100644
--- a/aspects/electrical/PowerBus/GunnsElectDistributedIf.cpp
+++ b/aspects/electrical/PowerBus/GunnsElectDistributedIf.cpp
@@ -350,12 +350,11 @@ bool GunnsElectDistributedIf::updateInterface()
 {
     const bool previousRole = mInterface.isInDemandRole();
     updateSupplyData();
-    if (mVoltageSource.getInputPowerValid()) {
-        mInterface.update(static_cast<float>(mPotentialVector[0]),
-                          static_cast<float>(mVoltageSource.getInputPower()));
-    } else {
-        mInterface.update(static_cast<float>(mPotentialVector[0]), 0.0F);
-    }
+    /// - The stored input power of the voltage source is zero after a rejected minor step, so get it
+    ///   from the current solution.
+    double inputPower = 0.0;
+    mVoltageSource.computeInputPower(inputPower);
+    mInterface.update(static_cast<float>(mPotentialVector[0]), static_cast<float>(inputPower));
     processIfNotifications(false);
     return previousRole;
 }
-- 
2.43.0


From 45f97818e50d234684cba10eb16d87b9b2dda373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 87/87] fix: fluid shadow converts its input mixture in a copy,
 so inputs held over several passes are not converted again

---
 core/GunnsFluidShadow.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/core/GunnsFluidShadow.cpp b/core/GunnsFluidShadow.cpp
index 435a465..720e847 100755
--- a/core/GunnsFluidShadow.cpp
+++ b/core/GunnsFluidShadow.cpp
@@ -263,17 +263,22 @@ void GunnsFluidShadow::processInputs()
     if (mFirstPassFlag) {
         mShadowIsActive = (mShadowActiveControl == mControlTarget);
 
-        /// - Convert the incoming mixture information into partial masses.
+        /// - Convert the incoming mixture information into partial masses.  This is done in a copy
+        ///   of the inputs, because the inputs are not necessarily refreshed before every pass.
+        double mixture[FluidProperties::NO_FLUID];
+        for (int i=0; i<mTransformMap[0]; ++i) {
+            mixture[i] = mInputMixture[i];
+        }
         switch (mInputMixtureType) {
             case GunnsFluidUtils::MOLE_FRACTION :
-                GunnsFluidUtils::convertMoleFractionToMassFraction(mInputMixture, mInputMixture,
+                GunnsFluidUtils::convertMoleFractionToMassFraction(mixture, mixture,
                                                                    mExternalConfig);
                 break;
 
             case GunnsFluidUtils::PARTIAL_PRESSURE :
-                GunnsFluidUtils::convertPartialPressureToMoleFraction(mInputMixture, mInputMixture,
+                GunnsFluidUtils::convertPartialPressureToMoleFraction(mixture, mixture,
                                                                       mExternalConfig);
-                GunnsFluidUtils::convertMoleFractionToMassFraction(mInputMixture, mInputMixture,
+                GunnsFluidUtils::convertMoleFractionToMassFraction(mixture, mixture,
                                                                    mExternalConfig);
                 break;
 
@@ -286,7 +291,7 @@ void GunnsFluidShadow::processInputs()
 
             try {
                 GunnsFluidUtils::transformState(mNodes[1]->getContent(), mInputPressure,
-                        mInputTemperature, mInputMixture, mTransformMap);
+                        mInputTemperature, mixture, mTransformMap);
             } catch (TsOutOfBoundsException &e) {
                 GUNNS_WARNING("caught exception from PolyFluid class, most likely due to bad " <<
                               "external fluid data.");
-- 
2.43.0

