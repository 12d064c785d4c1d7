From 43746880e38907e030820a1e605c7edf1ade06c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:12 +0000
Subject: [PATCH 01/69] fix: Minkowski distance of order 1, -1 and general p,
 and its extremes

Orders 1 and -1 were swapped (1 is Manhattan, -1 is Chebyshev), every other order
threw because an n x 2 matrix was assigned to a vector, and the largest and smallest
distance were always Euclidean.
---
 include/gwmodelpp/spatialweight/MinkwoskiDistance.h | 2 +-
 src/gwmodelpp/spatialweight/CRSDistance.cpp         | 4 ++--
 src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp   | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/gwmodelpp/spatialweight/MinkwoskiDistance.h b/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
index 2395476..4c49561 100644
--- a/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
+++ b/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
@@ -125,7 +125,7 @@ inline arma::vec MinkwoskiDistance::ManhattonDist(const arma::rowvec& out_loc, c
 
 inline arma::vec MinkwoskiDistance::MinkwoskiDist(const arma::rowvec& out_loc, const arma::mat& in_locs, double p)
 {
-    arma::vec temp = abs(in_locs.each_row() - out_loc);
+    arma::mat temp = abs(in_locs.each_row() - out_loc);
     return pow(sum(pow(temp, p), 1), 1.0 / p);
 }
 
diff --git a/src/gwmodelpp/spatialweight/CRSDistance.cpp b/src/gwmodelpp/spatialweight/CRSDistance.cpp
index 0c00116..93e109a 100644
--- a/src/gwmodelpp/spatialweight/CRSDistance.cpp
+++ b/src/gwmodelpp/spatialweight/CRSDistance.cpp
@@ -137,7 +137,7 @@ double CRSDistance::maxDistance()
     double maxD = 0.0;
     for (uword i = 0; i < mParameter->total; i++)
     {
-        double d = max(mCalculator(mParameter->focusPoints.row(i), mParameter->dataPoints));
+        double d = max(distance(i));
         maxD = d > maxD ? d : maxD;
     }
     return maxD;
@@ -149,7 +149,7 @@ double CRSDistance::minDistance()
     double minD = DBL_MAX;
     for (uword i = 0; i < mParameter->total; i++)
     {
-        double d = min(mCalculator(mParameter->focusPoints.row(i), mParameter->dataPoints));
+        double d = min(distance(i));
         minD = d < minD ? d : minD;
     }
     return minD;
diff --git a/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp b/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
index 377777a..69bd934 100644
--- a/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
+++ b/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
@@ -42,8 +42,8 @@ vec MinkwoskiDistance::distance(uword focus)
                 dp = CoordinateRotate(mParameter->dataPoints, mTheta);
                 rp = CoordinateRotate(mParameter->focusPoints.row(focus), mTheta);
             }
-            if (mPoly == 1.0) return ChessDistance(rp, dp);
-            else if (mPoly == -1.0) return ManhattonDist(rp, dp);
+            if (mPoly == 1.0) return ManhattonDist(rp, dp);
+            else if (mPoly == -1.0) return ChessDistance(rp, dp);
             else return MinkwoskiDist(rp, dp, mPoly);
         }
         else throw std::runtime_error("Target is out of bounds of data points.");
-- 
2.43.0


From e7a8d374f8f6be0f3538c001ec1ae97084d38a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:46 +0000
Subject: [PATCH 02/69] fix: copies of one-dimensional, space-time and matrix
 distances keep their points

The copy constructors dropped the parameter (and dereferenced null parts of an empty
space-time distance), so a cloned configuration could not give the distances of its
source; a space-time distance without points now raises an error.
---
 include/gwmodelpp/spatialweight/CRSSTDistance.h | 1 +
 src/gwmodelpp/spatialweight/CRSSTDistance.cpp   | 5 +++--
 src/gwmodelpp/spatialweight/DMatDistance.cpp    | 1 +
 src/gwmodelpp/spatialweight/OneDimDistance.cpp  | 2 +-
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/gwmodelpp/spatialweight/CRSSTDistance.h b/include/gwmodelpp/spatialweight/CRSSTDistance.h
index 01df73d..f3b6322 100644
--- a/include/gwmodelpp/spatialweight/CRSSTDistance.h
+++ b/include/gwmodelpp/spatialweight/CRSSTDistance.h
@@ -99,6 +99,7 @@ public:
      */
     arma::vec distance(arma::uword focus) override
     {
+        if (mParameter == nullptr) throw std::runtime_error("Parameter is nullptr.");
         return mCalculator(mSpatialDistance, mTemporalDistance, focus, mLambda, mAngle);
     }
 
diff --git a/src/gwmodelpp/spatialweight/CRSSTDistance.cpp b/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
index 2d69970..dd377e7 100644
--- a/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
+++ b/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
@@ -83,9 +83,10 @@ CRSSTDistance::CRSSTDistance(const CRSSTDistance &distance)
     }
     else throw std::runtime_error("The lambda must be in [0,1].");
     // mLambda = distance.mLambda;
-    mSpatialDistance = distance.mSpatialDistance->clone();
+    if (distance.mSpatialDistance) mSpatialDistance = distance.mSpatialDistance->clone();
     //mSpatialDistance = static_cast<gwm::CRSDistance*>(distance.mSpatialDistance->clone());
-    mTemporalDistance = static_cast<gwm::OneDimDistance*>(distance.mTemporalDistance->clone());
+    if (distance.mTemporalDistance) mTemporalDistance = static_cast<gwm::OneDimDistance*>(distance.mTemporalDistance->clone());
+    if (distance.mParameter) mParameter = make_unique<Parameter>(*distance.mParameter);
     mCalculator=distance.mCalculator;
 }
 
diff --git a/src/gwmodelpp/spatialweight/DMatDistance.cpp b/src/gwmodelpp/spatialweight/DMatDistance.cpp
index 046d007..f24eb2b 100644
--- a/src/gwmodelpp/spatialweight/DMatDistance.cpp
+++ b/src/gwmodelpp/spatialweight/DMatDistance.cpp
@@ -13,6 +13,7 @@ DMatDistance::DMatDistance(string dmatFile)
 DMatDistance::DMatDistance(const DMatDistance &distance)
 {
     mDMatFile = distance.mDMatFile;
+    if (distance.mParameter) mParameter = make_unique<Parameter>(*distance.mParameter);
 }
 
 void DMatDistance::makeParameter(initializer_list<DistParamVariant> plist)
diff --git a/src/gwmodelpp/spatialweight/OneDimDistance.cpp b/src/gwmodelpp/spatialweight/OneDimDistance.cpp
index 9e5cbd7..ad255dd 100644
--- a/src/gwmodelpp/spatialweight/OneDimDistance.cpp
+++ b/src/gwmodelpp/spatialweight/OneDimDistance.cpp
@@ -15,7 +15,7 @@ OneDimDistance::OneDimDistance() : Distance()
 
 OneDimDistance::OneDimDistance(const OneDimDistance &distance) : Distance(distance)
 {
-    
+    if (distance.mParameter) mParameter = make_unique<Parameter>(*distance.mParameter);
 }
 
 void OneDimDistance::makeParameter(initializer_list<DistParamVariant> plist)
-- 
2.43.0


From 37ba2aa98f6660336ae21c043819942dd630cd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:46 +0000
Subject: [PATCH 03/69] fix: empty weighting configurations can be copied, and
 set from their own parts

Copying or assigning a configuration without weight or distance dereferenced null, and
setting the weight or distance from a reference to the configuration's own one deleted
it before cloning it.
---
 include/gwmodelpp/spatialweight/SpatialWeight.h | 16 ++++++++++------
 src/gwmodelpp/spatialweight/SpatialWeight.cpp   |  4 ++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/gwmodelpp/spatialweight/SpatialWeight.h b/include/gwmodelpp/spatialweight/SpatialWeight.h
index 5a35e69..a477537 100644
--- a/include/gwmodelpp/spatialweight/SpatialWeight.h
+++ b/include/gwmodelpp/spatialweight/SpatialWeight.h
@@ -106,8 +106,8 @@ public:
      */
     SpatialWeight(const SpatialWeight& spatialWeight)
     {
-        mWeight = spatialWeight.mWeight->clone();
-        mDistance = spatialWeight.mDistance->clone();
+        if (spatialWeight.mWeight) mWeight = spatialWeight.mWeight->clone();
+        if (spatialWeight.mDistance) mDistance = spatialWeight.mDistance->clone();
     }
 
     /**
@@ -191,8 +191,9 @@ public:
      */
     void setWeight(Weight& weight)
     {
+        Weight* newWeight = weight.clone();
         if (mWeight) delete mWeight;
-        mWeight = weight.clone();
+        mWeight = newWeight;
     }
 
     /**
@@ -210,8 +211,9 @@ public:
      */
     void setWeight(Weight&& weight)
     {
+        Weight* newWeight = weight.clone();
         if (mWeight) delete mWeight;
-        mWeight = weight.clone();
+        mWeight = newWeight;
     }
 
     /**
@@ -283,8 +285,9 @@ public:
      */
     void setDistance(Distance& distance)
     {
+        Distance* newDistance = distance.clone();
         if (mDistance) delete mDistance;
-        mDistance = distance.clone();
+        mDistance = newDistance;
     }
 
     /**
@@ -302,8 +305,9 @@ public:
      */
     void setDistance(Distance&& distance)
     {
+        Distance* newDistance = distance.clone();
         if (mDistance) delete mDistance;
-        mDistance = distance.clone();
+        mDistance = newDistance;
     }
 
     /**
diff --git a/src/gwmodelpp/spatialweight/SpatialWeight.cpp b/src/gwmodelpp/spatialweight/SpatialWeight.cpp
index 256f548..de21b3e 100644
--- a/src/gwmodelpp/spatialweight/SpatialWeight.cpp
+++ b/src/gwmodelpp/spatialweight/SpatialWeight.cpp
@@ -28,8 +28,8 @@ SpatialWeight &SpatialWeight::operator=(const SpatialWeight &spatialWeight)
     if (this == &spatialWeight) return *this;
     if (mWeight) delete mWeight;
     if (mDistance) delete mDistance;
-    mWeight = spatialWeight.mWeight->clone();
-    mDistance = spatialWeight.mDistance->clone();
+    mWeight = spatialWeight.mWeight ? spatialWeight.mWeight->clone() : nullptr;
+    mDistance = spatialWeight.mDistance ? spatialWeight.mDistance->clone() : nullptr;
     return *this;
 }
 
-- 
2.43.0


From 809ce9de82cf0ae42e7486189cb2d1016fbce716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:13 +0000
Subject: [PATCH 04/69] fix: bandwidth selection never leaves the given range

Rounding adaptive candidates to whole numbers lets the two search points cross, after
which the next candidate could lie below the lower or above the upper bound (range 1..9
reaches -1).  A selector that is used again now starts with an empty record.
---
 src/gwmodelpp/BandwidthSelector.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/BandwidthSelector.cpp b/src/gwmodelpp/BandwidthSelector.cpp
index fbd4767..04c4446 100644
--- a/src/gwmodelpp/BandwidthSelector.cpp
+++ b/src/gwmodelpp/BandwidthSelector.cpp
@@ -8,6 +8,7 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
     BandwidthWeight* w1 = static_cast<BandwidthWeight*>(mBandwidth->clone());
     BandwidthWeight* w2 = static_cast<BandwidthWeight*>(mBandwidth->clone());
     double xU = mUpper, xL = mLower;
+    mBandwidthCriterion.clear();
     bool adaptBw = mBandwidth->adaptive();
     const double eps = 1e-4;
     const double R = (sqrt(5)-1)/2;
@@ -42,7 +43,7 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
         {
             xL = x2;
             x2 = x1;
-            x1 = adaptBw ? round(xL + d) : (xL + d);
+            x1 = min(adaptBw ? round(xL + d) : (xL + d), mUpper);
             f2 = f1;
             w1->setBandwidth(x1);
             s1 = instance->getCriterion(w1, f1);
@@ -53,7 +54,7 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
         {
             xU = x1;
             x1 = x2;
-            x2 = adaptBw ? floor(xU - d) : (xU - d);
+            x2 = max(adaptBw ? floor(xU - d) : (xU - d), mLower);
             f1 = f2;
             w2->setBandwidth(x2);
             s2 = instance->getCriterion(w2, f2);
-- 
2.43.0


From afcd61d9a20110cb942ebf12cacc4b26006139f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:13 +0000
Subject: [PATCH 05/69] fix: variable selection terminates when no model passes
 the threshold

The unsigned loop counter never became negative, so with a single candidate or a
threshold no step reaches the list was read before its beginning.
---
 src/gwmodelpp/VariableForwardSelector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/VariableForwardSelector.cpp b/src/gwmodelpp/VariableForwardSelector.cpp
index 039acbb..290259f 100644
--- a/src/gwmodelpp/VariableForwardSelector.cpp
+++ b/src/gwmodelpp/VariableForwardSelector.cpp
@@ -65,7 +65,7 @@ vector<pair<vector<size_t>, double> > VariableForwardSelector::sort(vector<pair<
 
 pair<vector<size_t>, double> VariableForwardSelector::select(vector<pair<vector<size_t>, double> > models)
 {
-    for (size_t i = models.size() - 1; i >= 0; i--)
+    for (size_t i = models.size() - 1; i > 0; i--)
     {
         if (models[i - 1].second - models[i].second >= mThreshold)
         {
-- 
2.43.0


From a27d0b2e379e598ebad8bc06d3f909f2b5c2ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:31 +0000
Subject: [PATCH 06/69] fix: parallel criteria of basic GWR refuse candidates
 with unsolvable local systems

---
 src/gwmodelpp/GWRBasic.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 12720c7..bf6930e 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -518,6 +518,7 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
     uword nDp = mCoords.n_rows, nVar = x.n_cols;
     mat betas(nVar, nDp, fill::zeros);
     bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -538,10 +539,15 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     return betas.t();
 }
 
@@ -550,7 +556,8 @@ arma::mat GWRBasic::fitCoreSHatOmp(const arma::mat& x, const arma::vec& y, const
     uword nDp = mCoords.n_rows, nVar = x.n_cols;
     mat betas(nVar, nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
-    int flag = true;
+    bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -575,10 +582,15 @@ arma::mat GWRBasic::fitCoreSHatOmp(const arma::mat& x, const arma::vec& y, const
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     shat = sum(shat_all, 1);
     return betas.t();
 }
-- 
2.43.0


From 5330a879d3cdf879dc1c9b2d469a93ba0ecdafaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:55 +0000
Subject: [PATCH 07/69] fix: variable subsets without a finite criterion are
 refused

---
 src/gwmodelpp/GWRBasic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index bf6930e..1bd15fc 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -403,9 +403,9 @@ double gwm::GWRBasic::indepVarsSelectionCriterion(const vector<size_t>& indepVar
         vec shat;
         mat betas = (this->*mFitCoreSHatFunction)(x, mY, sw, shat);
         GWM_LOG_PROGRESS(++mIndepVarSelectionProgressCurrent, mIndepVarSelectionProgressTotal);
-        if (mStatus == Status::Success)
+        double aic = GWRBase::AICc(x, mY, betas, shat);
+        if (mStatus == Status::Success && isfinite(aic))
         {
-            double aic = GWRBase::AICc(x, mY, betas, shat);
             GWM_LOG_INFO(IVarialbeSelectable::infoVariableCriterion(indepVars, aic));
             return aic;
         }
-- 
2.43.0


From a4e246e70e6bb41c3cd7137e2db45289c712cdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:50 +0000
Subject: [PATCH 08/69] fix: variable selection without candidates selects
 nothing

---
 src/gwmodelpp/VariableForwardSelector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/VariableForwardSelector.cpp b/src/gwmodelpp/VariableForwardSelector.cpp
index 290259f..3f1bb76 100644
--- a/src/gwmodelpp/VariableForwardSelector.cpp
+++ b/src/gwmodelpp/VariableForwardSelector.cpp
@@ -8,6 +8,7 @@ using namespace gwm;
 
 vector<size_t> VariableForwardSelector::optimize(IVarialbeSelectable *instance)
 {
+    if (mVariables.empty()) return mVariables;
     vector<size_t> curIndex, restIndex;
     for (size_t i = 0; i < mVariables.size(); i++)
     {
-- 
2.43.0


From cb9aa4fc1d568d0623c9a112cb93b81c7adfcb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:22 +0000
Subject: [PATCH 09/69] fix: a run starts with a clean status

---
 src/gwmodelpp/GTWR.cpp                 | 2 ++
 src/gwmodelpp/GWDA.cpp                 | 1 +
 src/gwmodelpp/GWDR.cpp                 | 1 +
 src/gwmodelpp/GWPCA.cpp                | 1 +
 src/gwmodelpp/GWRBasic.cpp             | 2 ++
 src/gwmodelpp/GWRGeneralized.cpp       | 2 ++
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 ++
 src/gwmodelpp/GWRMultiscale.cpp        | 1 +
 src/gwmodelpp/GWRRobust.cpp            | 2 ++
 src/gwmodelpp/GWRScalable.cpp          | 2 ++
 src/gwmodelpp/GWSS.cpp                 | 1 +
 11 files changed, 17 insertions(+)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index 6de7ba3..b33cac6 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -28,6 +28,7 @@ RegressionDiagnostic GTWR::CalcDiagnostic(const mat& x, const vec& y, const mat&
 
 mat GTWR::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing")
     createDistanceParameter();
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
@@ -91,6 +92,7 @@ mat GTWR::fit()
 
 mat GTWR::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     createPredictionDistanceParameter(locations);
     mBetas = (this->*mPredictFunction)(locations, mX, mY);
     return mBetas;
diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 1dfe708..d11e088 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -28,6 +28,7 @@ bool GWDA::isValid()
 // template<class T>
 void GWDA::run()
 {
+    mStatus = Status::Success;
     createDistanceParameter();
     uword nRp = mCoords.n_rows;
     if(mX.n_cols<2){
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index e845b65..175aeb3 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -31,6 +31,7 @@ RegressionDiagnostic GWDR::CalcDiagnostic(const mat& x, const vec& y, const mat&
 
 mat GWDR::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
     uword nDims = mCoords.n_cols, nDp = mCoords.n_rows, nVars = mX.n_cols;
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index a2a954a..d9d938a 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -5,6 +5,7 @@ using namespace gwm;
 
 void GWPCA::run()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
     createDistanceParameter();
     GWM_LOG_STOP_RETURN(mStatus, void());
diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 1bd15fc..f30b7e0 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -61,6 +61,7 @@ RegressionDiagnostic GWRBasic::CalcDiagnostic(const mat& x, const vec& y, const
 
 mat GWRBasic::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
 #ifdef ENABLE_MPI
@@ -171,6 +172,7 @@ mat GWRBasic::fit()
 
 mat GWRBasic::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
     createPredictionDistanceParameter(locations);
diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 1b95a86..66b7af5 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -19,6 +19,7 @@ using namespace gwm;
 
 mat GWRGeneralized::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     // 初始化
     // setXY(mX, mY, mSourceLayer, mDepVar, mIndepVars);
@@ -171,6 +172,7 @@ void GWRGeneralized::createPredictionDistanceParameter(const arma::mat &location
 }
 mat GWRGeneralized::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
     mHasHatMatrix = false;
     createPredictionDistanceParameter(locations);
diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 785dc24..b498b1f 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -38,6 +38,7 @@ GWRLocalCollinearity::~GWRLocalCollinearity()
 
 mat GWRLocalCollinearity::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     createDistanceParameter();
@@ -99,6 +100,7 @@ void GWRLocalCollinearity::createPredictionDistanceParameter(const arma::mat& lo
 
 mat GWRLocalCollinearity::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     createPredictionDistanceParameter(locations);
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 3e03f4a..f272227 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -79,6 +79,7 @@ RegressionDiagnostic GWRMultiscale::CalcDiagnostic(const mat &x, const vec &y, c
 
 mat GWRMultiscale::fit()
 {
+    mStatus = Status::Success;
     uword nDp = mX.n_rows, nVar = mX.n_cols;
     // ********************************
     // Centering and scaling predictors
diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index 2dfb292..48c6f8b 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -29,6 +29,7 @@ RegressionDiagnostic GWRRobust::CalcDiagnostic(const mat &x, const vec &y, const
 
 mat GWRRobust::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     createDistanceParameter();
@@ -106,6 +107,7 @@ mat GWRRobust::fit()
 
 mat GWRRobust::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     size_t nDp = locations.n_rows, nVar = mX.n_cols;
 
     createPredictionDistanceParameter(locations);
diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 00d1325..82fa8c9 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -299,6 +299,7 @@ void GWRScalable::prepare()
 
 mat GWRScalable::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     createDistanceParameter();
     mDpSpatialWeight = mSpatialWeight;
     findDataPointNeighbours();
@@ -462,6 +463,7 @@ mat GWRScalable::predictSerial(const mat& locations, const arma::mat &x, const a
 
 mat GWRScalable::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     createDistanceParameter();
     mDpSpatialWeight = mSpatialWeight;
diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index f1acf85..1e5ec2c 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -62,6 +62,7 @@ bool GWSS::isValid()
 
 void GWSS::run()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nRp = mCoords.n_rows, nVar = mX.n_cols;
     createDistanceParameter();
-- 
2.43.0


From 42558b73643e75cd5d387d20a89cd07718a294d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:05 +0000
Subject: [PATCH 10/69] fix: the hat matrix of robust GWR can be read

---
 include/gwmodelpp/GWRRobust.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/gwmodelpp/GWRRobust.h b/include/gwmodelpp/GWRRobust.h
index e22256c..b9c6bb0 100644
--- a/include/gwmodelpp/GWRRobust.h
+++ b/include/gwmodelpp/GWRRobust.h
@@ -130,7 +130,6 @@ protected:
 private:
     bool mFiltered; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
 
-    arma::mat mS;           //!< \~english Hat matrix \f$S\f$ \~chinese 帽子矩阵 \f$S\f$
     arma::vec mWeightMask;  //!< \~english Second-level weights \~chinese 二次加权权重
     
     RegressionHatmatrix mfitFunction = &GWRRobust::fitSerial;   //!< \~english Calculator for fitting \~chinese 拟合函数
-- 
2.43.0


From 1acda3ab2e4edc03493710cd3234b6bace5159a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:05 +0000
Subject: [PATCH 11/69] fix: robust GWR without setFiltered read an
 uninitialised flag

---
 include/gwmodelpp/GWRRobust.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRRobust.h b/include/gwmodelpp/GWRRobust.h
index b9c6bb0..fbaf360 100644
--- a/include/gwmodelpp/GWRRobust.h
+++ b/include/gwmodelpp/GWRRobust.h
@@ -128,7 +128,7 @@ protected:
     void createPredictionDistanceParameter(const arma::mat& locations);
 
 private:
-    bool mFiltered; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
+    bool mFiltered = false; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
 
     arma::vec mWeightMask;  //!< \~english Second-level weights \~chinese 二次加权权重
     
-- 
2.43.0


From 5261bda93917114d626683e336866edc82140031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:05 +0000
Subject: [PATCH 12/69] fix: robust GWR searches the bandwidth in the range the
 caller set

---
 src/gwmodelpp/GWRRobust.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index 48c6f8b..cd052f5 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -63,8 +63,8 @@ mat GWRRobust::fit()
     {
         GWM_LOG_STAGE("Bandwidth selection");
         BandwidthWeight* bw0 = mSpatialWeight.weight<BandwidthWeight>();
-        double lower = bw0->adaptive() ? 20 : 0.0;
-        double upper = bw0->adaptive() ? nDp : mSpatialWeight.distance()->maxDistance();
+        double lower = mGoldenLowerBounds.value_or(bw0->adaptive() ? 20 : 0.0);
+        double upper = mGoldenUpperBounds.value_or(bw0->adaptive() ? nDp : mSpatialWeight.distance()->maxDistance());
         
         GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bw0));
         BandwidthSelector selector(bw0, lower, upper);
-- 
2.43.0


From e9ff126252b59aed551b45a962b375ae985436ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:49 +0000
Subject: [PATCH 13/69] fix: locally compensated ridge GWR restarts its trace
 sums, multi-threaded prediction has one column per variable

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index b498b1f..6c0bb46 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -336,6 +336,8 @@ mat GWRLocalCollinearity::fitSerial(const mat& x, const vec& y)
     vec localcn(nDp, fill::zeros);
     vec locallambda(nDp, fill::zeros);
     vec hatrow(nDp, fill::zeros);
+    this->mTrS = 0.0;
+    this->mTrStS = 0.0;
     for(uword i=0;i<nDp ;i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
@@ -465,8 +467,6 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
         rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
         shat_all(0, thread) += hatrow(i);
         shat_all(1, thread) += sum(hatrow % hatrow);
-        this->mTrS += hatrow(i);
-        this->mTrStS += sum(hatrow % hatrow);
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
     vec shat = sum(shat_all,1);
@@ -477,13 +477,12 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
 
 mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, const vec& y)
 {
-    uword nRp = locations.n_rows, nVar = mX.size() + 1;
+    uword nRp = locations.n_rows, nVar = mX.n_cols;
     mat betas(nRp, nVar, fill::zeros);
     vec localcn(nRp, fill::zeros);
     vec locallambda(nRp, fill::zeros);
     vec hatrow(nRp, fill::zeros);
 
-    mat shat_all(2, mOmpThreadNum, fill::zeros);
     //int current = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for(int i=0;i <(int)nRp;i++)
@@ -516,9 +515,6 @@ mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, c
         betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
         GWM_LOG_PROGRESS(i + 1, nRp);
     }
-    vec shat = sum(shat_all,1);
-    this->mTrS = sum(shat.row(0));
-    this->mTrStS = sum(shat.row(1));
     return betas;
 }
 #endif
-- 
2.43.0


From 1a3decaf3967cf42113fbaec75b5bfb186ec67be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:49 +0000
Subject: [PATCH 14/69] fix: local ridge regression of a constant response

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 6c0bb46..13d99d4 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -157,8 +157,6 @@ vec GWRLocalCollinearity::ridgelm(const vec& w,double lambda)
     //Xsd = trans(Xsd);
     //计算Xws
     mat Xws = Xw.each_row() / Xsd;
-    double ysd = stddev(yw.col(0));
-    mat yws = yw / ysd;
     //计算b值
     //计算crossprod(Xws)
     mat tmpCrossprodXws = trans(Xws)*Xws;
@@ -166,8 +164,8 @@ vec GWRLocalCollinearity::ridgelm(const vec& w,double lambda)
     mat tmpdiag = eye(Xws.n_cols,Xws.n_cols);
     //方程求解
     mat tmpXX = tmpCrossprodXws+lambda*tmpdiag;
-    mat tmpYY = trans(Xws)*yws;
-    vec resultb = inv(tmpXX)*(tmpYY)*ysd/trans(Xsd);
+    mat tmpYY = trans(Xws)*yw;
+    vec resultb = inv(tmpXX)*(tmpYY)/trans(Xsd);
     //如何返回？？
     return resultb;
 }
-- 
2.43.0


From 1a10e0827e742f974ad72e19131afe534d10eb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:08 +0000
Subject: [PATCH 15/69] fix: bandwidths whose local ridge systems cannot be
 solved are refused

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 72 ++++++++++++++++----------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 13d99d4..e3d0aec 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -211,6 +211,7 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVSerial(BandwidthWeight* ban
     {
         mXnot1.col(i) = mX.col(i+1);
     }
+    bool success = true;
     //主循环
     for (uword i = 0; i < n ; i++)
     {
@@ -228,20 +229,29 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVSerial(BandwidthWeight* ban
         //计算用于SVD分解的矩阵
         //计算svd.x
         //mat U,V均为正交矩阵，S为奇异值构成的列向量
-        mat U,V;
-        colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //赋值操作
-        //S.print();
-        //qDebug() << S(m);
-        localcn(i)=S(0)/S(m-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
+        try
+        {
+            mat U,V;
+            colvec S;
+            svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+            //赋值操作
+            //S.print();
+            //qDebug() << S(m);
+            localcn(i)=S(0)/S(m-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
+                }
             }
+            betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            success = false;
+            break;
         }
-        betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
     }
     //yhat赋值
     //vec mYHat = fitted(mX,betas);
@@ -251,7 +261,7 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVSerial(BandwidthWeight* ban
     //计算cv
 
     double cv = sum(residual % residual);
-    if (mStatus == Status::Success && isfinite(cv))
+    if (mStatus == Status::Success && success && isfinite(cv))
     {
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - cv)));
         mBandwidthLastCriterion = cv;
@@ -274,12 +284,14 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
     vec locallambda(n,fill::zeros);
     //取mX不含第一列的部分
     mat mXnot1 = mX.cols(1, mX.n_cols - 1);
+    bool success = true;
     //主循环
     uword current = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i <(int) n; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
+        if (!success) continue;
         //int thread = omp_get_thread_num();
         vec distvi = mSpatialWeight.distance()->distance(i);
         vec wgt = bandwidthWeight->weight(distvi);
@@ -294,20 +306,28 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
         //计算用于SVD分解的矩阵
         //计算svd.x
         //mat U,V均为正交矩阵，S为奇异值构成的列向量
-        mat U,V;
-        colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //赋值操作
-        //S.print();
-        //qDebug() << S(m);
-        localcn(i)=S(0)/S(m-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
+        try
+        {
+            mat U,V;
+            colvec S;
+            svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+            //赋值操作
+            //S.print();
+            //qDebug() << S(m);
+            localcn(i)=S(0)/S(m-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
+                }
             }
+            betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            success = false;
         }
-        betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
         current++;
     }
     //yhat赋值
@@ -317,7 +337,7 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
     vec residual = mY - yhat;
     //计算cv
     double cv = sum(residual % residual);
-    if (mStatus == Status::Success && isfinite(cv))
+    if (mStatus == Status::Success && success && isfinite(cv))
     {
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - cv)));
         mBandwidthLastCriterion = cv;
-- 
2.43.0


From d583757d5d8cf5e4a721142dc85a68dcc398fd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:15 +0000
Subject: [PATCH 16/69] fix: an unsolvable local system in a multi-threaded
 local ridge fit raises an error

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 148 ++++++++++++++++---------
 1 file changed, 93 insertions(+), 55 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index e3d0aec..9dc8e74 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -447,46 +447,65 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
     vec hatrow(nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
     //int current = 0;
+    bool success = true;
+    std::string message;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for(int i=0;i <(int)nDp;i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        int thread = omp_get_thread_num();
-        vec wi = mSpatialWeight.weightVector(i);
-        //计算xw
-        //取mX不含第一列的部分
-        mat mXnot1 = x.cols(1, x.n_cols - 1);
-        mat wispan(1,mXnot1.n_cols,fill::ones);
-        mat wispan1(1,x.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wi * wispan);
-        //计算x1w
-        mat x1w = x % (wi * wispan1);
-        //计算svd.x
-        //mat U,V均为正交矩阵，S为奇异值构成的列向量
-        mat U,V;
-        colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //qDebug() << mX.n_cols;
-        //赋值操作
-        localcn(i)=S(0)/S(x.n_cols-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+        if (!success) continue;
+        try
+        {
+            int thread = omp_get_thread_num();
+            vec wi = mSpatialWeight.weightVector(i);
+            //计算xw
+            //取mX不含第一列的部分
+            mat mXnot1 = x.cols(1, x.n_cols - 1);
+            mat wispan(1,mXnot1.n_cols,fill::ones);
+            mat wispan1(1,x.n_cols,fill::ones);
+            //计算xw
+            mat xw = mXnot1 % (wi * wispan);
+            //计算x1w
+            mat x1w = x % (wi * wispan1);
+            //计算svd.x
+            //mat U,V均为正交矩阵，S为奇异值构成的列向量
+            mat U,V;
+            colvec S;
+            svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+            //qDebug() << mX.n_cols;
+            //赋值操作
+            localcn(i)=S(0)/S(x.n_cols-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+                }
+            }
+            betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
+            //如果没有给regressionpoint
+            mat xm = x;
+            mat xtw = trans(x % (wi * wispan1));
+            mat xtwx = xtw * x;
+            mat xtwxinv = inv(xtwx);
+            rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
+            shat_all(0, thread) += hatrow(i);
+            shat_all(1, thread) += sum(hatrow % hatrow);
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+#pragma omp critical
+            {
+                message = e.what();
+                success = false;
             }
         }
-        betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
-        //如果没有给regressionpoint
-        mat xm = x;
-        mat xtw = trans(x % (wi * wispan1));
-        mat xtwx = xtw * x;
-        mat xtwxinv = inv(xtwx);
-        rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
-        shat_all(0, thread) += hatrow(i);
-        shat_all(1, thread) += sum(hatrow % hatrow);
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
+    if (!success)
+    {
+        throw std::runtime_error(message);
+    }
     vec shat = sum(shat_all,1);
     this->mTrS = sum(shat.row(0));
     this->mTrStS = sum(shat.row(1));
@@ -502,37 +521,56 @@ mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, c
     vec hatrow(nRp, fill::zeros);
 
     //int current = 0;
+    bool success = true;
+    std::string message;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for(int i=0;i <(int)nRp;i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        vec wi = mSpatialWeight.weightVector(i);
-        //计算xw
-        //取mX不含第一列的部分
-        mat mXnot1 = x.cols(1, x.n_cols - 1);
-        mat wispan(1,mXnot1.n_cols,fill::ones);
-        mat wispan1(1,x.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wi * wispan);
-        //计算x1w
-        mat x1w = x % (wi * wispan1);
-        //计算svd.x
-        //mat U,V均为正交矩阵，S为奇异值构成的列向量
-        mat U,V;
-        colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //qDebug() << mX.n_cols;
-        //赋值操作
-        localcn(i)=S(0)/S(x.n_cols-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+        if (!success) continue;
+        try
+        {
+            vec wi = mSpatialWeight.weightVector(i);
+            //计算xw
+            //取mX不含第一列的部分
+            mat mXnot1 = x.cols(1, x.n_cols - 1);
+            mat wispan(1,mXnot1.n_cols,fill::ones);
+            mat wispan1(1,x.n_cols,fill::ones);
+            //计算xw
+            mat xw = mXnot1 % (wi * wispan);
+            //计算x1w
+            mat x1w = x % (wi * wispan1);
+            //计算svd.x
+            //mat U,V均为正交矩阵，S为奇异值构成的列向量
+            mat U,V;
+            colvec S;
+            svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+            //qDebug() << mX.n_cols;
+            //赋值操作
+            localcn(i)=S(0)/S(x.n_cols-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+                }
+            }
+            betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+#pragma omp critical
+            {
+                message = e.what();
+                success = false;
             }
         }
-        betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
         GWM_LOG_PROGRESS(i + 1, nRp);
     }
+    if (!success)
+    {
+        throw std::runtime_error(message);
+    }
     return betas;
 }
 #endif
-- 
2.43.0


From 5c4e7d94b25e43c715de047a87f929b0e30495f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:25 +0000
Subject: [PATCH 17/69] fix: a cancelled prediction returns one row per
 requested location

---
 src/gwmodelpp/GWRBasic.cpp             | 2 +-
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index f30b7e0..924c2db 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -174,7 +174,7 @@ mat GWRBasic::predict(const mat& locations)
 {
     mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
-    uword nDp = mCoords.n_rows, nVars = mX.n_cols;
+    uword nDp = locations.n_rows, nVars = mX.n_cols;
     createPredictionDistanceParameter(locations);
 #ifdef ENABLE_CUDA
     if (mParallelType & ParallelType::CUDA)
diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 9dc8e74..632015e 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -101,7 +101,7 @@ void GWRLocalCollinearity::createPredictionDistanceParameter(const arma::mat& lo
 mat GWRLocalCollinearity::predict(const mat& locations)
 {
     mStatus = Status::Success;
-    uword nDp = mCoords.n_rows, nVar = mX.n_cols;
+    uword nDp = locations.n_rows, nVar = mX.n_cols;
     createPredictionDistanceParameter(locations);
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
 
-- 
2.43.0


From e2947f8ad37eaa3f7eefda245b6e7ef663697512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:25 +0000
Subject: [PATCH 18/69] fix: local ridge GWR reports the candidates it
 evaluates

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 632015e..4104d3c 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -263,6 +263,7 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVSerial(BandwidthWeight* ban
     double cv = sum(residual % residual);
     if (mStatus == Status::Success && success && isfinite(cv))
     {
+        GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bandwidthWeight, cv));
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - cv)));
         mBandwidthLastCriterion = cv;
         return cv;
@@ -339,6 +340,7 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
     double cv = sum(residual % residual);
     if (mStatus == Status::Success && success && isfinite(cv))
     {
+        GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bandwidthWeight, cv));
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - cv)));
         mBandwidthLastCriterion = cv;
         return cv;
-- 
2.43.0


From 6a2ec835ab3f7fe48b851b1d230e9f9be56ea4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:42 +0000
Subject: [PATCH 19/69] fix: a failed or cancelled search for the mixing factor
 leaves the configured one

---
 src/gwmodelpp/GTWR.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index b33cac6..28cc7f8 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -59,8 +59,19 @@ mat GTWR::fit()
         mStdistance = mSpatialWeight.distance<CRSSTDistance>();
 
         GWM_LOG_INFO(infoLambdaCriterion());
-        double lambda = LambdaAutoSelection(bw);
-        mStdistance->setLambda(lambda);
+        SpatialWeight configured = mSpatialWeight;
+        double lambda = 0.0;
+        try
+        {
+            lambda = LambdaAutoSelection(bw);
+        }
+        catch (...)
+        {
+            mSpatialWeight = configured;
+            throw;
+        }
+        if (mStatus == Status::Success) mStdistance->setLambda(lambda);
+        else mSpatialWeight = configured;
         GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
     }
 
-- 
2.43.0


From a5fc655f213cb7ccb8bc13d08acecb57b897b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:42 +0000
Subject: [PATCH 20/69] fix: GTWR reports the candidates it evaluates

---
 src/gwmodelpp/GTWR.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index 28cc7f8..c458471 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -221,6 +221,7 @@ double GTWR::bandwidthSizeCriterionCVSerial(BandwidthWeight* bandwidthWeight)
     }
     if (mStatus == Status::Success && isfinite(cv))
     {
+        GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bandwidthWeight, cv));
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - cv)));
         mBandwidthLastCriterion = cv;
         return cv;
@@ -259,6 +260,7 @@ double GTWR::bandwidthSizeCriterionAICSerial(BandwidthWeight* bandwidthWeight)
     double value = GWRBase::AICc(mX, mY, betas.t(), shat);
     if (mStatus == Status::Success && isfinite(value))
     {
+        GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bandwidthWeight, value));
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - value)));
         mBandwidthLastCriterion = value;
         return value;
@@ -424,6 +426,7 @@ double GTWR::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwidthWeight)
     if (mStatus == Status::Success && flag)
     {
         double cv = sum(cv_all);
+        GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bandwidthWeight, cv));
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - cv)));
         mBandwidthLastCriterion = cv;
         return cv;
@@ -471,7 +474,8 @@ double GTWR::bandwidthSizeCriterionAICOmp(BandwidthWeight* bandwidthWeight)
         double value = GWRBase::AICc(mX, mY, betas.t(), shat);
         if (isfinite(value))
         {
-            GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - value)));
+            GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bandwidthWeight, value));
+        GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - value)));
             mBandwidthLastCriterion = value;
             return value;
         }
-- 
2.43.0


From 76443d5c08630e1ef2082cb5b428f5df8aca1e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:42 +0000
Subject: [PATCH 21/69] fix: the default bandwidth criterion that is reported
 is the one that is used

---
 include/gwmodelpp/GTWR.h     | 2 +-
 include/gwmodelpp/GWRBasic.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gwmodelpp/GTWR.h b/include/gwmodelpp/GTWR.h
index 519013c..c54578a 100644
--- a/include/gwmodelpp/GTWR.h
+++ b/include/gwmodelpp/GTWR.h
@@ -620,7 +620,7 @@ protected:
     bool mIsAutoselectBandwidth = false;//!< \~english Whether need bandwidth autoselect. \~chinese 是否需要自动优选带宽。
     bool mIsAutoselectLambda = false;//!< \~english Whether need lambda autoselect. \~chinese 是否需要自动优选lambda。
 
-    BandwidthSelectionCriterionType mBandwidthSelectionCriterion = BandwidthSelectionCriterionType::AIC;//!< \~english Bandwidth Selection Criterion Type. \~chinese 默认的带宽优选方式。
+    BandwidthSelectionCriterionType mBandwidthSelectionCriterion = BandwidthSelectionCriterionType::CV;//!< \~english Bandwidth Selection Criterion Type. \~chinese 默认的带宽优选方式。
     BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GTWR::bandwidthSizeCriterionCVSerial;//!< \~english Bandwidth Selection Criterion Function. \~chinese 默认的带宽优选函数。
     BandwidthCriterionList mBandwidthSelectionCriterionList;//!< \~english Bandwidth Selection Criterion List. \~chinese 默认的带宽优选参数列表。
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
diff --git a/include/gwmodelpp/GWRBasic.h b/include/gwmodelpp/GWRBasic.h
index 30665d2..a576d8f 100644
--- a/include/gwmodelpp/GWRBasic.h
+++ b/include/gwmodelpp/GWRBasic.h
@@ -743,7 +743,7 @@ protected:
     std::size_t mIndepVarSelectionProgressCurrent = 0; //!< \~english Current progress of independent variable selection. \~chinese 当前自变量优选的进度。
 
     bool mIsAutoselectBandwidth = false;    //!< \~english Whether to auto select bandwidth. \~chinese 是否自动优选带宽。
-    BandwidthSelectionCriterionType mBandwidthSelectionCriterion = BandwidthSelectionCriterionType::AIC;    //!< \~english Type criterion for bandwidth selection. \~chinese 带宽优选的指标值类型。
+    BandwidthSelectionCriterionType mBandwidthSelectionCriterion = BandwidthSelectionCriterionType::CV;    //!< \~english Type criterion for bandwidth selection. \~chinese 带宽优选的指标值类型。
     BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GWRBasic::bandwidthSizeCriterionCV; //!< \~english Criterion calculator for bandwidth selection. \~chinese 带宽优选的指标计算函数。
     BandwidthCriterionList mBandwidthSelectionCriterionList;    //!< \~english Criterion list of each bandwidth. \~chinese 每种带宽组合对应的指标值。
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
-- 
2.43.0


From b9e7c8b3a74fef3dbd78eb29324ac4a7afc3ba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:55 +0000
Subject: [PATCH 22/69] fix: GTWR prediction at more locations than samples
 does not read past the end

---
 src/gwmodelpp/GTWR.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index c458471..c852845 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -104,6 +104,10 @@ mat GTWR::fit()
 mat GTWR::predict(const mat& locations)
 {
     mStatus = Status::Success;
+    if (locations.n_rows > mCoords.n_rows)
+    {
+        throw std::runtime_error("More locations than samples.");
+    }
     createPredictionDistanceParameter(locations);
     mBetas = (this->*mPredictFunction)(locations, mX, mY);
     return mBetas;
-- 
2.43.0


From 69019808a3b9fed858a1ff7d9fc5ca579170696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:37 +0000
Subject: [PATCH 23/69] fix: an unsolvable local system in a multi-threaded
 density regression raises an error

---
 src/gwmodelpp/GWDR.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 175aeb3..9dfc5d5 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -305,6 +305,7 @@ mat GWDR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qdiag
             {
                 GWM_LOG_ERROR(e.what());
                 except = e;
+                success = false;
             }
         }
         GWM_LOG_PROGRESS(i + 1, nDp);
-- 
2.43.0


From 0bc48407e913cf52b06a07b2f9436736466e8130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:37 +0000
Subject: [PATCH 24/69] fix: density regression optimises fixed bandwidths from
 where they start, and never asks for less than one neighbour

---
 src/gwmodelpp/GWDR.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 9dfc5d5..46f1db2 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -770,12 +770,15 @@ double GWDRBandwidthOptimizer::criterion_function(const gsl_vector* bws, void* p
     GWDR* instance = p->instance;
     const vector<BandwidthWeight*>& bandwidths = *(p->bandwidths);
     double nFeature = double(p->featureCount);
+    bool usable = true;
     for (size_t m = 0; m < bandwidths.size(); m++)
     {
         double pbw = abs(gsl_vector_get(bws, m));
         bandwidths[m]->setBandwidth(pbw * nFeature);
+        // less than one neighbour: no weights can be calculated
+        if (bandwidths[m]->adaptive() && bandwidths[m]->bandwidth() < 1.0) usable = false;
     }
-    return instance->bandwidthCriterion(bandwidths);
+    return usable ? instance->bandwidthCriterion(bandwidths) : DBL_MAX;
 }
 
 const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, size_t maxIter, double eps, double step)
@@ -786,7 +789,7 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
     gsl_vector* steps = gsl_vector_alloc(nDim);
     for (size_t m = 0; m < nDim; m++)
     {
-        double target_value = mBandwidths[m]->adaptive() ? mBandwidths[m]->bandwidth() / double(featureCount) : mBandwidths[m]->bandwidth();
+        double target_value = mBandwidths[m]->bandwidth() / double(featureCount);
         gsl_vector_set(targets, m, target_value);
         gsl_vector_set(steps, m, step);
     }
@@ -831,7 +834,7 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
         {
             double pbw = abs(gsl_vector_get(minimizer->x, m));
             // pbw = (pbw > 1.0 ? 1.0 : pbw);
-            mBandwidths[m]->setBandwidth(round(pbw * featureCount));
+            mBandwidths[m]->setBandwidth(mBandwidths[m]->adaptive() ? round(pbw * featureCount) : pbw * featureCount);
         }
     }
     gsl_multimin_fminimizer_free(minimizer);
-- 
2.43.0


From 716526abf782cfa64d8972b55b667088d409e85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:37 +0000
Subject: [PATCH 25/69] fix: a failed or cancelled bandwidth optimisation of
 density regression leaves the configured bandwidths

---
 src/gwmodelpp/GWDR.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 46f1db2..dc50c8f 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -68,9 +68,11 @@ mat GWDR::fit()
     if (mEnableBandwidthOptimize)
     {
         GWM_LOG_STAGE("Bandwidth selection");
+        vector<double> configured;
         for (auto&& sw : mSpatialWeights)
         {
             BandwidthWeight* bw = sw.weight<BandwidthWeight>();
+            configured.push_back(bw->bandwidth());
             // Set Initial value
             double lower = bw->adaptive() ? nVars + 1 : sw.distance()->minDistance();
             double upper = bw->adaptive() ? nDp : sw.distance()->maxDistance();
@@ -88,6 +90,13 @@ mat GWDR::fit()
         GWM_LOG_INFO(GWDRBandwidthOptimizer::infoBandwidthCriterion(bws));
         GWDRBandwidthOptimizer optimizer(bws);
         int resultCode = optimizer.optimize(this, mCoords.n_rows, mBandwidthOptimizeMaxIter, mBandwidthOptimizeEps, mBandwidthOptimizeStep);
+        if (mStatus != Status::Success || resultCode)
+        {
+            for (size_t m = 0; m < bws.size(); m++)
+            {
+                bws[m]->setBandwidth(configured[m]);
+            }
+        }
         GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
         
         if (resultCode)
-- 
2.43.0


From c785f2ec6ec8477e6432f057839e8381b89d51f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:37 +0000
Subject: [PATCH 26/69] fix: density regression predicts

---
 include/gwmodelpp/GWDR.h |  2 +-
 src/gwmodelpp/GWDR.cpp   | 26 ++++++++++++++++++--------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/include/gwmodelpp/GWDR.h b/include/gwmodelpp/GWDR.h
index 5c95e9c..205e05b 100644
--- a/include/gwmodelpp/GWDR.h
+++ b/include/gwmodelpp/GWDR.h
@@ -320,7 +320,7 @@ public: // IRegressionAnalysis
 
     virtual RegressionDiagnostic diagnostic() const override { return mDiagnostic; }
 
-    virtual arma::mat predict(const arma::mat& locations) override { return arma::mat(locations.n_rows, mX.n_cols, arma::fill::zeros); }
+    virtual arma::mat predict(const arma::mat& locations) override;
 
     virtual arma::mat fit() override;
 
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index dc50c8f..b07edeb 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -137,11 +137,21 @@ mat GWDR::fit()
     return mBetas;
 }
 
+mat GWDR::predict(const mat& locations)
+{
+    mStatus = Status::Success;
+    for (size_t m = 0; m < mSpatialWeights.size(); m++)
+    {
+        mSpatialWeights[m].distance()->makeParameter({ vec(locations.col(m)), vec(mCoords.col(m)) });
+    }
+    return (this->*mPredictFunction)(locations, mX, mY);
+}
+
 mat GWDR::predictSerial(const mat& locations, const mat& x, const vec& y)
 {
-    uword nDp = locations.n_rows, nVar = mX.n_cols;
-    mat betas(nVar, nDp, arma::fill::zeros);
-    for (size_t i = 0; i < nDp; i++)
+    uword nRp = locations.n_rows, nDp = x.n_rows, nVar = x.n_cols;
+    mat betas(nVar, nRp, arma::fill::zeros);
+    for (size_t i = 0; i < nRp; i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
         vec w(nDp, arma::fill::ones);
@@ -164,7 +174,7 @@ mat GWDR::predictSerial(const mat& locations, const mat& x, const vec& y)
             GWM_LOG_ERROR(e.what());
             throw e;
         }
-        GWM_LOG_PROGRESS(i + 1, nDp);
+        GWM_LOG_PROGRESS(i + 1, nRp);
     }
     return betas.t();
 }
@@ -172,12 +182,12 @@ mat GWDR::predictSerial(const mat& locations, const mat& x, const vec& y)
 #ifdef ENABLE_OPENMP
 mat GWDR::predictOmp(const mat& locations, const mat& x, const vec& y)
 {
-    uword nDp = locations.n_rows, nVar = mX.n_cols;
-    mat betas(nVar, nDp, arma::fill::zeros);
+    uword nRp = locations.n_rows, nDp = x.n_rows, nVar = x.n_cols;
+    mat betas(nVar, nRp, arma::fill::zeros);
     bool success = true;
     std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
-    for (uword i = 0; i < nDp; i++)
+    for (uword i = 0; i < nRp; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
         if (success)
@@ -204,7 +214,7 @@ mat GWDR::predictOmp(const mat& locations, const mat& x, const vec& y)
                 success = false;
             }
         }
-        GWM_LOG_PROGRESS(i + 1, nDp);
+        GWM_LOG_PROGRESS(i + 1, nRp);
     }
     if (!success)
     {
-- 
2.43.0


From 528c1380f7c55a308cd21d9efcbb1cf95d929621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:59 +0000
Subject: [PATCH 27/69] fix: multiscale GWR diagnostics report the AIC

---
 src/gwmodelpp/GWRMultiscale.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index f272227..a7000e1 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -63,12 +63,14 @@ RegressionDiagnostic GWRMultiscale::CalcDiagnostic(const mat &x, const vec &y, c
     double trStS = shat(1);
     double enp = 2 * trS - trStS;
     double edf = nDp - 2 * trS + trStS;
+    double AIC = nDp * log(sigmaHat21) + nDp * log(2 * M_PI) + nDp + trS;
     double AICc = nDp * log(sigmaHat21) + nDp * log(2 * M_PI) + nDp * ((nDp + trS) / (nDp - 2 - trS));
     double adjustRsquare = 1 - (1 - Rsquare) * (nDp - 1) / (edf - 1);
 
     // 保存结果
     RegressionDiagnostic diagnostic;
     diagnostic.RSS = RSSg;
+    diagnostic.AIC = AIC;
     diagnostic.AICc = AICc;
     diagnostic.ENP = enp;
     diagnostic.EDF = edf;
-- 
2.43.0


From 756778488d56a64b370565951bd65facfc38889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:59 +0000
Subject: [PATCH 28/69] fix: multiscale GWR searches given initial fixed
 bandwidths in the range of distances

---
 src/gwmodelpp/GWRMultiscale.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index a7000e1..41f7a22 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -200,6 +200,8 @@ mat GWRMultiscale::fit()
     for (uword i = 0; i < nVar ; i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
+        mMaxDistances[i] = mSpatialWeights[i].distance()->maxDistance();
+        mMinDistances[i] = mSpatialWeights[i].distance()->minDistance();
         if (mBandwidthInitilize[i] == BandwidthInitilizeType::Null)
         {
             mBandwidthSizeCriterion = bandwidthSizeCriterionVar(mBandwidthSelectionApproach[i]);
@@ -207,8 +209,6 @@ mat GWRMultiscale::fit()
             mXi = mX.col(i);
             BandwidthWeight* bw0 = bandwidth(i);
             bool adaptive = bw0->adaptive();
-            mMaxDistances[i] = mSpatialWeights[i].distance()->maxDistance();
-            mMinDistances[i] = mSpatialWeights[i].distance()->minDistance();
 
             GWM_LOG_INFO(string(GWM_LOG_TAG_MGWR_INITIAL_BW) + to_string(i));
             BandwidthSelector selector;
-- 
2.43.0


From ba90594e647994b0ea4201d0a84ee1cb8518041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:59 +0000
Subject: [PATCH 29/69] fix: multiscale GWR refuses singular candidate
 bandwidths with multi-threading too

---
 src/gwmodelpp/GWRMultiscale.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 41f7a22..ae7b0e1 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -711,6 +711,10 @@ vec GWRMultiscale::fitVarCoreCVOmp(const vec &x, const vec &y, const SpatialWeig
             }
         }
     }
+    if (!flag)
+    {
+        throw std::runtime_error("Failed to fit a variable with the given weights.");
+    }
     return beta;
 }
 
@@ -748,6 +752,10 @@ vec GWRMultiscale::fitVarCoreSHatOmp(const vec &x, const vec &y, const SpatialWe
             }
         }
     }
+    if (!flag)
+    {
+        throw std::runtime_error("Failed to fit a variable with the given weights.");
+    }
     shat = sum(shat_all, 1);
     return betas;
 }
-- 
2.43.0


From 5db37318d71ce6d7dfa63454bf17738316c92c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:39 +0000
Subject: [PATCH 30/69] fix: generalised GWR fits without a hat matrix

---
 src/gwmodelpp/GWRGeneralized.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 66b7af5..97d3295 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -276,7 +276,7 @@ mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
             try
             {
                 vec wi = mWtMat2.col(i);
-                vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                 betas.col(i) = gwsi;
             }
             catch (const exception& e)
@@ -379,7 +379,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
                 try
                 {
                     vec wi = mWtMat2.col(i);
-                    vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                    vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                     betas.col(i) = gwsi;
                     // emit tick(current++, nRp);
                 }
@@ -471,8 +471,8 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
                 try
                 {
                     vec wi = mWtMat2.col(i);
-                    vec gwsi = gwPredict(x, myAdj, wi * mWt2);
-                    mBetas.col(i) = gwsi;
+                    vec gwsi = gwPredict(x, myAdj, wi % mWt2);
+                    betas.col(i) = gwsi;
                     // emit tick(current++, nRp);
                 }
                 catch (const exception& e)
@@ -547,8 +547,8 @@ mat GWRGeneralized::fitBinomialSerial(const mat &x, const vec &y)
             try
             {
                 vec wi = mWtMat2.col(i);
-                vec gwsi = gwPredict(x, myAdj, wi * mWt2);
-                mBetas.col(i) = gwsi;
+                vec gwsi = gwPredict(x, myAdj, wi % mWt2);
+                betas.col(i) = gwsi;
                 // emit tick(i, nRp);
             }
             catch (const exception& e)
-- 
2.43.0


From 4dddec36feda4cf50f2f1e1c197fd8a62040397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:39 +0000
Subject: [PATCH 31/69] fix: AICc of the global model of generalised GWR is not
 truncated to an integer

---
 src/gwmodelpp/GWRGeneralized.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 97d3295..cf9e2fa 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -196,7 +196,8 @@ void GWRGeneralized::CalGLMModel(const mat &x, const vec &y)
     double dev = mGlm.dev();
     double pseudor2 = 1 - dev / nulldev;
     double aic = dev + 2 * nVar;
-    double aicc = aic + 2 * nVar * (nVar + 1) / (nDp - nVar - 1);
+    double k = double(nVar);
+    double aicc = aic + 2 * k * (k + 1) / (double(nDp) - k - 1);
     vec vGLMDiags(5);
     vGLMDiags(0) = aic;
     vGLMDiags(1) = aicc;
-- 
2.43.0


From 77c25ed575c6418329b51318082c3afcc9133d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:40 +0000
Subject: [PATCH 32/69] fix: multi-threaded AIC of generalised GWR sums the
 trace of all threads

---
 src/gwmodelpp/GWRGeneralized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index cf9e2fa..c888f02 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -753,7 +753,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
 
     if (mStatus == Status::Success && S.is_finite())
     {
-        double trs = double(trS(0));
+        double trs = sum(trS);
         double AICc = -2 * mLLik + 2 * trs + 2 * trs * (trs + 1) / (n - trs - 1);
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - AICc)));
         mBandwidthLastCriterion = AICc;
-- 
2.43.0


From 3f001cc6e302beb715558b156f00385e181e52aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:40 +0000
Subject: [PATCH 33/69] fix: generalised GWR reports the criterion of every
 candidate bandwidth

---
 src/gwmodelpp/GWRGeneralized.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index c888f02..8cdec4b 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -607,6 +607,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVSerial(BandwidthWeight *bandw
     double res = sum(cvsquare);
     if (mStatus == Status::Success && isfinite(res))
     {
+        GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bandwidthWeight, res));
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - res)));
         mBandwidthLastCriterion = res;
         return res;
@@ -663,6 +664,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
     double res = sum(cvsquare);
     if (mStatus == Status::Success && isfinite(res))
     {
+        GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bandwidthWeight, res));
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - res)));
         mBandwidthLastCriterion = res;
         return res;
@@ -704,6 +706,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICSerial(BandwidthWeight *band
     {
         double trs = double(trS(0));
         double AICc = -2 * mLLik + 2 * trs + 2 * trs * (trs + 1) / (n - trs - 1);
+        GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bandwidthWeight, AICc));
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - AICc)));
         mBandwidthLastCriterion = AICc;
         return AICc;
@@ -755,6 +758,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
     {
         double trs = sum(trS);
         double AICc = -2 * mLLik + 2 * trs + 2 * trs * (trs + 1) / (n - trs - 1);
+        GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bandwidthWeight, AICc));
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - AICc)));
         mBandwidthLastCriterion = AICc;
         return AICc;
-- 
2.43.0


From b1c099924f75205e0b5586b13c68afb092f0b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:23 +0000
Subject: [PATCH 34/69] fix: generalised GWR refuses candidate bandwidths with
 singular local systems

---
 include/gwmodelpp/GWRGeneralized.h |  9 ++++++++-
 src/gwmodelpp/GWRGeneralized.cpp   | 20 ++++++++++++++++++--
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index f73cf09..921eec4 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -128,7 +128,14 @@ public:
 public: // IBandwidthSizeSelectable interface
     Status getCriterion(BandwidthWeight *bandwidthWeight, double& criterion) override
     {
-        criterion = (this->*mBandwidthSelectCriterionFunction)(bandwidthWeight);
+        try
+        {
+            criterion = (this->*mBandwidthSelectCriterionFunction)(bandwidthWeight);
+        }
+        catch (const std::exception& e)
+        {
+            criterion = DBL_MAX;
+        }
         return mStatus;
     }
 
diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 8cdec4b..2e30189 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -639,11 +639,12 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
     (this->*mCalWtFunction)(mX, mY, wt);
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
+    bool success = true;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i < (int)n; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        if (true)
+        try
         {
             mat wi = wt.col(i) % mWt2;
             vec gwsi = gwPredict(mX, myAdj, wi);
@@ -657,8 +658,14 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
                 cv.row(i) = mY.row(i) - exp(yhatnoi) / (1 + exp(yhatnoi));
             }
         }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            success = false;
+        }
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
+    if (!success) return DBL_MAX;
 
     vec cvsquare = trans(cv) * cv;
     double res = sum(cvsquare);
@@ -706,6 +713,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICSerial(BandwidthWeight *band
     {
         double trs = double(trS(0));
         double AICc = -2 * mLLik + 2 * trs + 2 * trs * (trs + 1) / (n - trs - 1);
+        if (!isfinite(AICc)) return DBL_MAX;
         GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bandwidthWeight, AICc));
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - AICc)));
         mBandwidthLastCriterion = AICc;
@@ -739,11 +747,12 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
     vec trS = vec(mOmpThreadNum, fill::zeros);
+    bool success = true;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i < (int)n; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        if (true)
+        try
         {
             int thread = omp_get_thread_num();
             vec wi = wt.col(i) % mWt2;
@@ -751,13 +760,20 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
             S.row(i) = mX.row(i) * Ci;
             trS(thread) += S(i, i);
         }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            success = false;
+        }
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
+    if (!success) return DBL_MAX;
 
     if (mStatus == Status::Success && S.is_finite())
     {
         double trs = sum(trS);
         double AICc = -2 * mLLik + 2 * trs + 2 * trs * (trs + 1) / (n - trs - 1);
+        if (!isfinite(AICc)) return DBL_MAX;
         GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bandwidthWeight, AICc));
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - AICc)));
         mBandwidthLastCriterion = AICc;
-- 
2.43.0


From 88630569c08d0933d76372ddd2a69e43463f060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:23 +0000
Subject: [PATCH 35/69] fix: generalised GWR starts with a defined family

---
 include/gwmodelpp/GWRGeneralized.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index 921eec4..6bde03a 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -421,7 +421,7 @@ private:
     void createPredictionDistanceParameter(const arma::mat& locations);
 
 protected:
-    Family mFamily;             //!< \~english Family of the model \~chinese 模型的族
+    Family mFamily = Family::Poisson;             //!< \~english Family of the model \~chinese 模型的族
     double mTol=1e-5;           //!< \~english Tolerance \~chinese 容忍值
     std::size_t mMaxiter=20;    //!< \~english Maximum of iteration \~chinese 最大迭代次数
 
-- 
2.43.0


From ef4670e83fb4779446ee2a685b91d2edf8beec3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:23 +0000
Subject: [PATCH 36/69] fix: generalised GWR predicts at the given locations

---
 src/gwmodelpp/GWRGeneralized.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 2e30189..f107417 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -173,14 +173,33 @@ void GWRGeneralized::createPredictionDistanceParameter(const arma::mat &location
 mat GWRGeneralized::predict(const mat& locations)
 {
     mStatus = Status::Success;
-    uword nDp = mCoords.n_rows, nVars = mX.n_cols;
-    mHasHatMatrix = false;
-    createPredictionDistanceParameter(locations);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+    uword nDp = mCoords.n_rows, nVars = mX.n_cols, nRp = locations.n_rows;
+    createDistanceParameter();
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
 
-    mBetas = (this->*mGGWRfitFunction)(mX, mY);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+    // working response and weights come from the samples
+    GWM_LOG_STAGE("Preparing");
+    mWtMat1 = mat(nDp, nDp, fill::zeros);
+    for (uword i = 0; i < nDp; i++)
+    {
+        mWtMat1.col(i) = mSpatialWeight.weightVector(i);
+    }
+    (this->*mCalWtFunction)(mX, mY, mWtMat1);
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
+
+    GWM_LOG_STAGE("Prediction");
+    createPredictionDistanceParameter(locations);
+    mat betas(nRp, nVars, arma::fill::zeros);
+    for (uword i = 0; i < nRp; i++)
+    {
+        GWM_LOG_STOP_BREAK(mStatus);
+        vec wi = mSpatialWeight.weightVector(i);
+        betas.row(i) = trans(gwPredict(mX, myAdj, wi % mWt2));
+        GWM_LOG_PROGRESS(i + 1, nRp);
+    }
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
 
+    mBetas = betas;
     return mBetas;
 }
 
-- 
2.43.0


From d8867a0e4038a9318257b3eb66579328a74e5333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:48 +0000
Subject: [PATCH 37/69] fix: scalable GWR leaves the configured bandwidth as it
 is when it exceeds the samples

---
 include/gwmodelpp/GWRScalable.h |  7 +++++++
 src/gwmodelpp/GWRScalable.cpp   | 36 +++++++++++----------------------
 2 files changed, 19 insertions(+), 24 deletions(-)

diff --git a/include/gwmodelpp/GWRScalable.h b/include/gwmodelpp/GWRScalable.h
index 8a97de7..ccd3fba 100644
--- a/include/gwmodelpp/GWRScalable.h
+++ b/include/gwmodelpp/GWRScalable.h
@@ -177,6 +177,13 @@ public:     // IRegressionAnalysis interface
 
 private:
 
+    /**
+     * @brief \~english Number of neighbours the bandwidth stands for. \~chinese 获取带宽对应的近邻数量。
+     * 
+     * @return arma::uword \~english Number of neighbours, less than the number of samples \~chinese 近邻数量，小于样本数
+     */
+    arma::uword neighbourCount();
+
     /**
      * @brief \~english Find the nearest data points. \~chinese 获取临近的数据点。
      * 
diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 82fa8c9..6ff8a9c 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -140,10 +140,15 @@ RegressionDiagnostic GWRScalable::CalcDiagnostic(const mat& x, const vec& y, con
     return { rss, AIC, AICc, enp, edf, r2, r2_adj };
 }
 
+uword GWRScalable::neighbourCount()
+{
+    uword nDp = mCoords.n_rows, nBw = (uword)mSpatialWeight.weight<BandwidthWeight>()->bandwidth();
+    return nBw < nDp ? nBw : nDp - 1;
+}
+
 void GWRScalable::findDataPointNeighbours()
 {
-    BandwidthWeight* bandwidth = mDpSpatialWeight.weight<BandwidthWeight>();
-    uword nDp = mCoords.n_rows, nBw = uword(bandwidth->bandwidth()) < nDp ? uword(bandwidth->bandwidth()) : nDp;
+    uword nDp = mCoords.n_rows, nBw = neighbourCount();
     if (mParameterOptimizeCriterion == BandwidthSelectionCriterionType::CV)
     {
         nBw -= 1;
@@ -172,10 +177,8 @@ void GWRScalable::findDataPointNeighbours()
 
 mat GWRScalable::findNeighbours(const mat& points, umat &nnIndex)
 {
-    BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
-    uword nDp = mCoords.n_rows;
     uword nRp = points.n_rows;
-    uword nBw = uword(bandwidth->bandwidth()) < nDp ? uword(bandwidth->bandwidth()) : nDp;
+    uword nBw = neighbourCount();
     umat index(nBw, nRp, fill::zeros);
     mat dists(nBw, nRp, fill::zeros);
     for (uword i = 0; i < nRp; i++)
@@ -304,12 +307,7 @@ mat GWRScalable::predict(const mat& locations)
     mDpSpatialWeight = mSpatialWeight;
     findDataPointNeighbours();
     BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
-    arma::uword nDp = mX.n_rows, nRp = locations.n_rows, nVar = mX.n_rows, nBw = (uword)bandwidth->bandwidth();
-    if (nBw >= nDp) 
-    {
-        nBw = nDp - 1;
-        bandwidth->setBandwidth((double)nBw);
-    }
+    arma::uword nRp = locations.n_rows, nVar = mX.n_rows, nBw = neighbourCount();
     double band0 = 0.0;
     switch (bandwidth->kernel())
     {
@@ -352,7 +350,7 @@ mat GWRScalable::predictSerial(const mat& locations, const arma::mat &x, const a
     BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
     //uword nDp = mCoords.n_rows;
     uword nRp = locations.n_rows, nVar = mX.n_cols;
-    uword nBw = (uword)bandwidth->bandwidth();
+    uword nBw = neighbourCount();
     double band0 = 0.0;
     mat G0;
     umat rpNNIndex;
@@ -469,12 +467,7 @@ mat GWRScalable::fit()
     mDpSpatialWeight = mSpatialWeight;
     findDataPointNeighbours();
     BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
-    arma::uword nDp = mX.n_rows, nVar = mX.n_cols, nBw = (uword)bandwidth->bandwidth();
-    if (nBw >= nDp) 
-    {
-        nBw = nDp - 1;
-        bandwidth->setBandwidth((double)nBw);
-    }
+    arma::uword nDp = mX.n_rows, nVar = mX.n_cols, nBw = neighbourCount();
     double band0 = 0.0;
     switch (bandwidth->kernel())
     {
@@ -522,13 +515,8 @@ mat GWRScalable::fit()
 arma::mat GWRScalable::fitSerial(const arma::mat &x, const arma::vec &y)
 {
     BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
-    uword bw = (uword)bandwidth->bandwidth();
+    uword bw = neighbourCount();
     uword n = x.n_rows, k = x.n_cols, poly1 = mPolynomial + 1;
-    if (bw >= n)
-    {
-        bw = bw - 1;
-        bandwidth->setBandwidth((double)bw);
-    }
     double b = mScale, a = mPenalty;
     mat XtX = x.t() * x, XtY = x.t() * y;
     mat betas(k, n, fill::zeros);
-- 
2.43.0


From fcce35ba4a706e9ea1d5f46719fd1b95c3bd011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:48 +0000
Subject: [PATCH 38/69] fix: scalable GWR with cross-validation accepts
 bandwidths up to 50

---
 src/gwmodelpp/GWRScalable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 6ff8a9c..786fe62 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -312,11 +312,11 @@ mat GWRScalable::predict(const mat& locations)
     switch (bandwidth->kernel())
     {
     case BandwidthWeight::KernelFunctionType::Gaussian:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / sqrt(3);
+        band0 = median(mDpNNDists.col(min<uword>({50, nBw, mDpNNDists.n_cols}) - 1)) / sqrt(3);
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
+        band0 = median(mDpNNDists.col(min<uword>({50, nBw, mDpNNDists.n_cols}) - 1)) / 3;
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     default:
@@ -472,11 +472,11 @@ mat GWRScalable::fit()
     switch (bandwidth->kernel())
     {
     case BandwidthWeight::KernelFunctionType::Gaussian:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / sqrt(3);
+        band0 = median(mDpNNDists.col(min<uword>({50, nBw, mDpNNDists.n_cols}) - 1)) / sqrt(3);
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
+        band0 = median(mDpNNDists.col(min<uword>({50, nBw, mDpNNDists.n_cols}) - 1)) / 3;
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     default:
-- 
2.43.0


From dec3422771e1b9b0171ba917735c3224d294e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:48 +0000
Subject: [PATCH 39/69] fix: cancelled prediction of scalable GWR returns a
 matrix of the right shape

---
 src/gwmodelpp/GWRScalable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 786fe62..a6fdad6 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -307,7 +307,7 @@ mat GWRScalable::predict(const mat& locations)
     mDpSpatialWeight = mSpatialWeight;
     findDataPointNeighbours();
     BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
-    arma::uword nRp = locations.n_rows, nVar = mX.n_rows, nBw = neighbourCount();
+    arma::uword nRp = locations.n_rows, nVar = mX.n_cols, nBw = neighbourCount();
     double band0 = 0.0;
     switch (bandwidth->kernel())
     {
-- 
2.43.0


From 5fbf9ddc3f4aba34c0ceaf42ff68433fce319d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:48 +0000
Subject: [PATCH 40/69] fix: the exponential base kernel of scalable GWR is
 exponential

---
 src/gwmodelpp/GWRScalable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index a6fdad6..78acaae 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -317,7 +317,7 @@ mat GWRScalable::predict(const mat& locations)
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(mDpNNDists.col(min<uword>({50, nBw, mDpNNDists.n_cols}) - 1)) / 3;
-        mG0 = exp(-pow(mDpNNDists / band0, 2));
+        mG0 = exp(-mDpNNDists / band0);
         break;
     default:
         return mBetas;
@@ -363,7 +363,7 @@ mat GWRScalable::predictSerial(const mat& locations, const arma::mat &x, const a
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(rpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
-        G0 = exp(-pow(rpNNDists / band0, 2));
+        G0 = exp(-rpNNDists / band0);
         break;
     default:
         return mat(nRp, nVar, fill::zeros);
@@ -477,7 +477,7 @@ mat GWRScalable::fit()
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(mDpNNDists.col(min<uword>({50, nBw, mDpNNDists.n_cols}) - 1)) / 3;
-        mG0 = exp(-pow(mDpNNDists / band0, 2));
+        mG0 = exp(-mDpNNDists / band0);
         break;
     default:
         return mBetas;
@@ -532,7 +532,7 @@ arma::mat GWRScalable::fitSerial(const arma::mat &x, const arma::vec &y)
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(dpNNDists.col(min<uword>(50, bw) - 1)) / 3;
-        mG0 = exp(-pow(dpNNDists / band0, 2));
+        mG0 = exp(-dpNNDists / band0);
         break;
     default:
         return betas.t();
-- 
2.43.0


From 1a711e8490c2e76ad18c051037ac102d42c82476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:48 +0000
Subject: [PATCH 41/69] fix: the AIC of scalable GWR counts each sample's own
 observation once

---
 src/gwmodelpp/GWRScalable.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 78acaae..5299b7a 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -163,16 +163,8 @@ void GWRScalable::findDataPointNeighbours()
         nnIndex.col(i) = i_sorted(span(0, nBw - 1));
         nnDists.col(i) = d_sorted(span(0, nBw - 1));
     }
-    if (mParameterOptimizeCriterion == BandwidthSelectionCriterionType::CV)
-    {
-        mDpNNDists = trans(nnDists);
-        mDpNNIndex = trans(nnIndex);
-    }
-    else
-    {
-        mDpNNDists = join_rows(vec(nDp, fill::zeros), trans(nnDists));
-        mDpNNIndex = join_rows(linspace<uvec>(0, nDp - 1, nDp), trans(nnIndex));
-    }
+    mDpNNDists = trans(nnDists);
+    mDpNNIndex = trans(nnIndex);
 }
 
 mat GWRScalable::findNeighbours(const mat& points, umat &nnIndex)
-- 
2.43.0


From 5ea5559e2e7a855ad8e284dbda1e163ffb0226e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:14 +0000
Subject: [PATCH 42/69] fix: local quantiles do not read before the sorted
 values

---
 src/gwmodelpp/GWSS.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index 1e5ec2c..464a65e 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -34,14 +34,10 @@ vec GWSS::findq(const mat &x, const vec &w)
         double k = 0.25 * (j + 1);
         for(uword i = 0; i < lw; i++){
             if(Cum(i) > k){
-                cond = i - 1;
+                cond = i > 0 ? i - 1 : 0;
                 break;
             }
         }
-        if(cond < 0)
-        {
-            cond = 0;
-        }
         q.row(j) = xo[cond];
         cond = lw - 1;
     }
-- 
2.43.0


From 6902d29cd69cbdb874613bb1725d6a9c0867cde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:14 +0000
Subject: [PATCH 43/69] fix: tied values share their rank in local rank
 correlations

---
 include/gwmodelpp/GWSS.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/gwmodelpp/GWSS.h b/include/gwmodelpp/GWSS.h
index 8173486..c2e8201 100644
--- a/include/gwmodelpp/GWSS.h
+++ b/include/gwmodelpp/GWSS.h
@@ -96,9 +96,15 @@ public:
 
     static arma::vec rank(arma::vec x)
     {
-        arma::vec n = arma::linspace(0.0, (double)x.n_rows - 1, x.n_rows);
-        arma::vec res = n(sort_index(x));
-        return n(sort_index(res)) + 1.0;
+        arma::uvec order = arma::sort_index(x);
+        arma::vec res(x.n_rows, arma::fill::zeros);
+        for (arma::uword i = 0, j = 0; i < x.n_rows; i = j)
+        {
+            // tied values share the mean of their ranks
+            while (j < x.n_rows && x(order(j)) == x(order(i))) j++;
+            for (arma::uword t = i; t < j; t++) res(order(t)) = (double)(i + 1 + j) / 2.0;
+        }
+        return res;
     }
 
     typedef void (GWSS::*SummaryCalculator)();  //!< \~english Calculator for summary statistics \~chinese 汇总统计计算函数
-- 
2.43.0


From 06e086e99c0ac16d14b3353778f6e174236e09e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:14 +0000
Subject: [PATCH 44/69] fix: local component deviations are scaled by the
 weights of their own location

---
 src/gwmodelpp/GWPCA.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index d9d938a..254c89b 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -21,7 +21,6 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
 {
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     mat d_all(nVar, nDp, arma::fill::zeros);
-    vec w0;
     loadings = cube(nDp, nVar, mK, arma::fill::zeros);
     for (uword i = 0; i < nDp; i++)
     {
@@ -30,8 +29,7 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
         mat V;
         vec d;
         wpca(x, w, V, d);
-        w0 = w;
-        d_all.col(i) = d;
+        d_all.col(i) = d / sqrt(sum(w));
         for (int j = 0; j < mK; j++)
         {
             loadings.slice(j).row(i) = arma::trans(V.col(j));
@@ -39,7 +37,7 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
     d_all = trans(d_all);
-    mat variance = (d_all / sqrt(sum(w0))) % (d_all / sqrt(sum(w0)));
+    mat variance = d_all % d_all;
     sdev = sqrt(variance);
     mat pv = variance.cols(0, mK - 1).each_col() % (1.0 / sum(variance, 1)) * 100.0;
     return pv;
-- 
2.43.0


From 4879fe890c60e0a9e05bcb80a768ae7cd1c09bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:18 +0000
Subject: [PATCH 45/69] fix: discriminant analysis does not keep the samples of
 an earlier run

---
 src/gwmodelpp/GWDA.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index d11e088..7789a52 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -36,14 +36,6 @@ void GWDA::run()
     }
     // vec lev = levels(mY);
     mHasPredict = !(mprX.is_empty() && mprY.empty());
-    if (mprX.is_empty())
-    {
-        mprX = mX;
-    }
-    if (mprY.empty())
-    {
-        mprY = mY;
-    }
     (this->*mDiscriminantAnalysisFunction)();
     uword NV = mRes.n_cols;
     vec correct(mY.size(), fill::zeros);
@@ -106,11 +98,11 @@ void GWDA::discriminantAnalysisSerial()
     if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
-        mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wqda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
     else
     {
-        mRes = wlda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wlda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
 }
 
@@ -129,11 +121,11 @@ void GWDA::discriminantAnalysisOmp()
     }
     if (mIsWqda)
     {
-        mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wqda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
     else
     {
-        mRes = wlda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wlda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
 }
 #endif
-- 
2.43.0


From b51cccbb04901a4cd6698a713486e3824c1cc58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:18 +0000
Subject: [PATCH 46/69] fix: multi-threaded discriminant analysis leaves each
 sample out of its own weights

---
 src/gwmodelpp/GWDA.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 7789a52..9850145 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -119,6 +119,7 @@ void GWDA::discriminantAnalysisOmp()
     {
         wt.col(i) = mSpatialWeight.weightVector(i);
     }
+    if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
         mRes = wqda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
-- 
2.43.0


From 64f927e071ac0e0057131553b12f48946b359315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:18 +0000
Subject: [PATCH 47/69] fix: quadratic discriminant analysis with global means,
 covariances or priors

---
 src/gwmodelpp/GWDA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 9850145..160c9b7 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -215,10 +215,10 @@ mat GWDA::wqda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
 {
     vector<string> lev = levels(y);
     uword m = lev.size();
-    // uword nDp = x.n_rows;
+    uword nDp = x.n_rows;
     uword nPr = xpr.n_rows;
     mat wtOnes;
-    // wtOnes.ones(nDp, nPr);
+    wtOnes.ones(nDp, nPr);
     vector<mat> xg = splitX(x, y);
     vector<vec> prior;
     mat wti; //(nDp, nPr, fill::zeros);
-- 
2.43.0


From bfbd99a5e51d89d452dfaf22a40ea458356c2d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:18 +0000
Subject: [PATCH 48/69] fix: discriminant scores with an odd number of classes

---
 src/gwmodelpp/GWDA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 160c9b7..b17e085 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -280,7 +280,7 @@ mat GWDA::wqda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
             vec meani = localMean[i].row(j).t();
             mat covmatj = sigmagw[i].row(j);
             vec x1 = 0.5 * (xprj - meani).t() * solve(covmatj, (xprj - meani)); // inv(covmatj) * (xprj - meani);
-            logPf(j, i) = (m / 2) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
+            logPf(j, i) = (m / 2.0) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
         }
     }
     vector<string> groupPr;
@@ -376,7 +376,7 @@ mat GWDA::wlda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
             vec meani = localMean[i].row(j).t();
             mat covmatj = sigma1gw.row(j);
             vec x1 = 0.5 * (xprj - meani).t() * solve(covmatj, (xprj - meani));
-            logPf(j, i) = (m / 2) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
+            logPf(j, i) = (m / 2.0) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
         }
     }
     vector<string> groupPr;
-- 
2.43.0


From 971433d8494cafb31ea4d80bff2b1a7bffaedc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:18 +0000
Subject: [PATCH 49/69] fix: class probabilities and entropy of discriminant
 analysis cover all classes, the best one being the most probable

---
 src/gwmodelpp/GWDA.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index b17e085..ce30de9 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -48,16 +48,12 @@ void GWDA::run()
     }
     uvec correctCount = find(correct == 1);
     mCorrectRate = (double)correctCount.n_rows / nRp;
-    mat tmp = mRes.cols(0, NV - 1);
-    for (uword i = 0; i < NV - 1; i++)
-    {
-        vec tempi = tmp.col(i);
-        tmp.col(i) = exp(tempi);
-    }
+    // scores are negative log densities: the best class has the smallest one
+    mat tmp = exp(-(mRes.each_col() - min(mRes, 1)));
     mat probs = tmp.each_col() / sum(tmp, 1); // / sum(tmp, 1);
     vec pmax = max(probs, 1);
     // double pnorm=0;
-    vec p = vec(NV - 1, fill::ones) / (NV - 1.0);
+    vec p = vec(NV, fill::ones) / (double)NV;
     double entMax = shannonEntropy(p);
     vec entropy(nRp, fill::zeros);
     for (uword i = 0; i < nRp; i++)
-- 
2.43.0


From f2c5c33a55ebd62ac607c46738492d6b37446b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:21 +0000
Subject: [PATCH 50/69] fix: bandwidths that settled during back-fitting are
 not specified ones of the next fit

---
 src/gwmodelpp/GWRMultiscale.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index ae7b0e1..80f8f35 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -305,6 +305,7 @@ mat GWRMultiscale::backfitting(const mat& betas0)
     // ***********************************************************
     GWM_LOG_MGWR_BACKFITTING("Selecting the optimum bandwidths for each independent variable");
     uvec bwChangeNo(nVar, fill::zeros);
+    vector<BandwidthInitilizeType> bwInitilize = mBandwidthInitilize;
     vec resid = mY - Fitted(mX, betas);
     double RSS0 = sum(resid % resid), RSS1 = DBL_MAX;
     double criterion = DBL_MAX;
@@ -318,7 +319,7 @@ mat GWRMultiscale::backfitting(const mat& betas0)
             mXi = mX.col(i);
             vec fi = betas.col(i) % mX.col(i);
             mYi = resid + fi;
-            if (mBandwidthInitilize[i] != BandwidthInitilizeType::Specified)
+            if (bwInitilize[i] != BandwidthInitilizeType::Specified)
             {
                 GWM_LOG_MGWR_BACKFITTING("#variable-bandwidth-selection " + to_string(i));
                 mBandwidthSizeCriterion = bandwidthSizeCriterionVar(mBandwidthSelectionApproach[i]);
@@ -348,7 +349,7 @@ mat GWRMultiscale::backfitting(const mat& betas0)
                     bwChangeNo(i) += 1;
                     if (bwChangeNo(i) >= mBandwidthSelectRetryTimes)
                     {
-                        mBandwidthInitilize[i] = BandwidthInitilizeType::Specified;
+                        bwInitilize[i] = BandwidthInitilizeType::Specified;
                         vbs_args.push_back("true");
                     }
                     else
-- 
2.43.0


From fb0dbfd4d8cb3cae615b63db1759d81b07cade5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:21 +0000
Subject: [PATCH 51/69] fix: scalable GWR without a solution does not return
 that of an earlier run

---
 src/gwmodelpp/GWRScalable.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 5299b7a..16e302a 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -300,6 +300,9 @@ mat GWRScalable::predict(const mat& locations)
     findDataPointNeighbours();
     BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
     arma::uword nRp = locations.n_rows, nVar = mX.n_cols, nBw = neighbourCount();
+    mBetas = mat(nRp, nVar, fill::zeros);
+    mScale = 1.0;
+    mPenalty = 0.01;
     double band0 = 0.0;
     switch (bandwidth->kernel())
     {
@@ -460,6 +463,10 @@ mat GWRScalable::fit()
     findDataPointNeighbours();
     BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
     arma::uword nDp = mX.n_rows, nVar = mX.n_cols, nBw = neighbourCount();
+    mBetas = mat(nDp, nVar, fill::zeros);
+    mScale = 1.0;
+    mPenalty = 0.01;
+    mDiagnostic = RegressionDiagnostic();
     double band0 = 0.0;
     switch (bandwidth->kernel())
     {
-- 
2.43.0


From 4880e73b232005a25e3d856cd660a645a078aa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:21 +0000
Subject: [PATCH 52/69] fix: coefficients of a stopped generalised fit have the
 documented dimensions

---
 src/gwmodelpp/GWRGeneralized.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index f107417..c8677a0 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -51,12 +51,17 @@ mat GWRGeneralized::fit()
     }
 
     GWM_LOG_STAGE("Preparing");
-    mBetas = mat(nVar, nRp, fill::zeros);
+    mBetas = mat(nRp, nVar, fill::zeros);
     if (mHasHatMatrix)
     {
         mBetasSE = mat(nVar, nDp, fill::zeros);
         mShat = vec(2, fill::zeros);
     }
+    else
+    {
+        mBetasSE.reset();
+        mShat.reset();
+    }
     mWtMat1 = mat(nDp, nDp, fill::zeros);
     mWtMat2 = mat(nRp, nDp, fill::zeros);
     if (mHasRegressionData)
@@ -87,7 +92,8 @@ mat GWRGeneralized::fit()
     CalGLMModel(mX, mY);
 
     GWM_LOG_STAGE("Model fitting");
-    mBetas = (this->*mGGWRfitFunction)(mX, mY);
+    mBetas = trans((this->*mGGWRfitFunction)(mX, mY));
+    mBetasSE = trans(mBetasSE);
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
 
     GWM_LOG_STAGE("Model Diagnostic");
@@ -96,9 +102,6 @@ mat GWRGeneralized::fit()
         if (mFamily == Family::Poisson)
         {
             mat betasTV = mBetas / mBetasSE;
-            mBetas = trans(mBetas);
-            mBetasSE = trans(mBetasSE);
-            betasTV = trans(betasTV);
             double trS = mShat(0);
             //double trStS = mShat(1);
 
@@ -121,7 +124,6 @@ mat GWRGeneralized::fit()
         else
         {
             mat n = vec(mY.n_rows, fill::ones);
-            mBetas = trans(mBetas);
 
             double trS = mShat(0);
             //double trStS = mShat(1);
@@ -134,12 +136,7 @@ mat GWRGeneralized::fit()
             double gwDev = sum(Dev);
             vec residual2 = res % res;
             //double rss = sum(residual2);
-            for (uword i = 0; i < nDp; i++)
-            {
-                mBetasSE.col(i) = sqrt(mBetasSE.col(i));
-                //            mBetasTV.col(i) = mBetas.col(i) / mBetasSE.col(i);
-            }
-            mBetasSE = trans(mBetasSE);
+            mBetasSE = sqrt(mBetasSE);
             mat betasTV = mBetas / mBetasSE;
 
             double AIC = gwDev + 2 * trS;
@@ -157,7 +154,6 @@ mat GWRGeneralized::fit()
     }
     else
     {
-        mBetas = trans(mBetas);
         return mBetas;
     }
 }
-- 
2.43.0


From 94c63442d6c20f47944fef319ef0eaaa8d0400de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:18 +0000
Subject: [PATCH 53/69] fix: a variable selection that selects nothing does not
 keep the records of an earlier one

---
 src/gwmodelpp/GWDR.cpp      | 2 +-
 src/gwmodelpp/GWRBasic.cpp  | 2 +-
 src/gwmodelpp/GWRRobust.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index b07edeb..109d615 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -56,11 +56,11 @@ mat GWDR::fit()
         mIndepVarSelectionProgressCurrent = 0;
         VariableForwardSelector selector(indep_vars, mIndepVarSelectThreshold);
         mSelectedIndepVars = selector.optimize(this);
+        mIndepVarCriterionList = selector.indepVarsCriterion();
         if (mSelectedIndepVars.size() > 0)
         {
             mX = mX.cols(VariableForwardSelector::index2uvec(mSelectedIndepVars, mHasIntercept));
             nVars = mX.n_cols;
-            mIndepVarCriterionList = selector.indepVarsCriterion();
         }
         GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
     }
diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 924c2db..5d7637d 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -124,10 +124,10 @@ mat GWRBasic::fit()
         GWM_LOG_INFO(IVarialbeSelectable::infoVariableCriterion());
         VariableForwardSelector selector(indep_vars, mIndepVarSelectionThreshold);
         mSelectedIndepVars = selector.optimize(this);
+        mIndepVarsSelectionCriterionList = selector.indepVarsCriterion();
         if (mSelectedIndepVars.size() > 0)
         {
             mX = mX.cols(VariableForwardSelector::index2uvec(mSelectedIndepVars, mHasIntercept));
-            mIndepVarsSelectionCriterionList = selector.indepVarsCriterion();
         }
         nVars = mX.n_cols;
         GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index cd052f5..1b35c43 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -50,11 +50,11 @@ mat GWRRobust::fit()
         GWM_LOG_INFO(IVarialbeSelectable::infoVariableCriterion());
         VariableForwardSelector selector(indep_vars, mIndepVarSelectionThreshold);
         mSelectedIndepVars = selector.optimize(this);
+        mIndepVarsSelectionCriterionList = selector.indepVarsCriterion();
         if (mSelectedIndepVars.size() > 0)
         {
             mX = mX.cols(VariableForwardSelector::index2uvec(mSelectedIndepVars, mHasIntercept));
             nVar = mX.n_cols;
-            mIndepVarsSelectionCriterionList = selector.indepVarsCriterion();
         }
         GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
     }
-- 
2.43.0


From cf86c5ceb10c08eebe4750029e284bfdb430c569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:18 +0000
Subject: [PATCH 54/69] fix: a generalised fit without hat matrix does not
 report the diagnostics of an earlier one

---
 src/gwmodelpp/GWRGeneralized.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index c8677a0..3f9129d 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -61,6 +61,7 @@ mat GWRGeneralized::fit()
     {
         mBetasSE.reset();
         mShat.reset();
+        mDiagnostic = GWRGeneralizedDiagnostic();
     }
     mWtMat1 = mat(nDp, nDp, fill::zeros);
     mWtMat2 = mat(nRp, nDp, fill::zeros);
-- 
2.43.0


From 4b8e886d5cada883669522055d37d34fd8d32c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:28 +0000
Subject: [PATCH 55/69] fix: a request to stop that was answered once is not
 forgotten

---
 include/gwmodelpp/Algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/Algorithm.h b/include/gwmodelpp/Algorithm.h
index 8605ba1..993017e 100644
--- a/include/gwmodelpp/Algorithm.h
+++ b/include/gwmodelpp/Algorithm.h
@@ -82,7 +82,7 @@ namespace gwm
  * @param STATUS \~english Variable to store status value \~chinese 保存状态值的变量
  * @param REVAL \~english Value to return \~chinese 返回值
  */
-#define GWM_LOG_STOP_RETURN(STATUS, REVAL) { if (this->mTelegram->stop()) { STATUS = gwm::Status::Terminated; return (REVAL);} }
+#define GWM_LOG_STOP_RETURN(STATUS, REVAL) { if ((STATUS) == gwm::Status::Terminated || this->mTelegram->stop()) { STATUS = gwm::Status::Terminated; return (REVAL);} }
 
 /**
  * @brief Shortcut to report progress of current and total numbers with function name and file name. 
-- 
2.43.0


From 1c78ef70f23c61973ebcf18d086b55026765fcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:41 +0000
Subject: [PATCH 56/69] fix: a multiscale fit stopped among its initial
 bandwidths announces no later stage

---
 src/gwmodelpp/GWRMultiscale.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 80f8f35..fd0c338 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -228,6 +228,7 @@ mat GWRMultiscale::fit()
         }
         GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
     }
+    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
 
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 
-- 
2.43.0


From 7db32fca0ba4dd9d3a812d99315b782394ce17b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:33 +0000
Subject: [PATCH 57/69] fix: distributed fits in which some processes get no
 samples

---
 src/gwmodelpp/GWRBasic.cpp      | 17 +++++++++++------
 src/gwmodelpp/GWRMultiscale.cpp |  4 ++--
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 5d7637d..f4dcd85 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -94,7 +94,7 @@ mat GWRBasic::fit()
         MPI_Bcast(mX.memptr(), mX.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mY.memptr(), mY.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mCoords.memptr(), mCoords.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-        uword workRangeFrom = uword(mWorkerId) * mWorkRangeSize;
+        uword workRangeFrom = min(uword(mWorkerId) * mWorkRangeSize, nDp);
         // cout << mWorkerId << " process work range: [" << workRangeFrom << "," << min(workRangeFrom + mWorkRangeSize, nDp) << "]\n";
         mWorkRange = make_pair(workRangeFrom, min(workRangeFrom + mWorkRangeSize, nDp));
         // cout << mWorkerId << " process work range: [" << mWorkRange.value().first << "," << mWorkRange.value().second << "]\n";
@@ -972,14 +972,14 @@ arma::mat gwm::GWRBasic::fitMpi()
         MPI_Recv(buf.get(), bufSize, MPI_DOUBLE, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &status);
         // printf("0 process received message with %d from %d\n", status.MPI_TAG, status.MPI_SOURCE);
         received(status.MPI_SOURCE, status.MPI_TAG - int(GWRBasicFitMpiTags::Betas)) = 1;
-        uword rangeFrom = status.MPI_SOURCE * mWorkRangeSize, rangeTo = min(rangeFrom + mWorkRangeSize, nDp), rangeSize = rangeTo - rangeFrom;
+        uword rangeFrom = min(status.MPI_SOURCE * mWorkRangeSize, nDp), rangeTo = min(rangeFrom + mWorkRangeSize, nDp), rangeSize = rangeTo - rangeFrom;
         switch (GWRBasicFitMpiTags(status.MPI_TAG))
         {
         case GWRBasicFitMpiTags::Betas:
-            mBetas.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
+            if (rangeSize > 0) mBetas.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
             break;
         case GWRBasicFitMpiTags::BetasSE:
-            mBetasSE.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
+            if (rangeSize > 0) mBetasSE.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
             break;
         case GWRBasicFitMpiTags::SHat:
             shat_all.col(status.MPI_SOURCE) = vec(buf.get(), 2);
@@ -1008,8 +1008,13 @@ arma::mat gwm::GWRBasic::fitMpi()
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
     // printf("%d process work range: [%lld, %lld]\n", mWorkerId, workRange.first, workRange.second);
     // cout << mWorkerId << " process work range: [" << workRange.first << "," << workRange.second << "]\n";
-    mat betas = mBetas.cols(workRange.first, workRange.second - 1);
-    mat betasSE = mBetasSE.cols(workRange.first, workRange.second - 1);
+    uword workSize = workRange.second - workRange.first;
+    mat betas(nVar, workSize), betasSE(nVar, workSize);
+    if (workSize > 0)
+    {
+        betas = mBetas.cols(workRange.first, workRange.second - 1);
+        betasSE = mBetasSE.cols(workRange.first, workRange.second - 1);
+    }
     MPI_Send(betas.memptr(), betas.n_elem, MPI_DOUBLE, 0, int(GWRBasicFitMpiTags::Betas), MPI_COMM_WORLD);
     MPI_Send(betasSE.memptr(), betasSE.n_elem, MPI_DOUBLE, 0, int(GWRBasicFitMpiTags::BetasSE), MPI_COMM_WORLD);
     MPI_Send(mSHat.memptr(), mSHat.n_elem, MPI_DOUBLE, 0, int(GWRBasicFitMpiTags::SHat), MPI_COMM_WORLD);
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index fd0c338..13408cd 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -176,7 +176,7 @@ mat GWRMultiscale::fit()
         MPI_Bcast(mX.memptr(), mX.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mY.memptr(), mY.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mCoords.memptr(), mCoords.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-        uword workRangeFrom = uword(mWorkerId) * mWorkRangeSize;
+        uword workRangeFrom = min(uword(mWorkerId) * mWorkRangeSize, nDp);
         mWorkRange = make_pair(workRangeFrom, min(workRangeFrom + mWorkRangeSize, nDp));
     }
 #endif // ENABLE_MPI
@@ -262,7 +262,7 @@ mat GWRMultiscale::fit()
         if (mParallelType & ParallelType::MPI)
         {
             vec shati(2);
-            shati(0) = trace(mS0.cols(workRange.first, workRange.second - 1));
+            shati(0) = mS0.n_rows > 0 ? trace(mS0.cols(workRange.first, workRange.second - 1)) : 0;
             shati(1) = trace(mS0 * mS0.t());
             MPI_Reduce(shati.memptr(), shat.memptr(), 2, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
             MPI_Bcast(shat.memptr(), 2, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-- 
2.43.0


From 62fd4eb864d946a86788dba1d5b5b7a7a3bafc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:34 +0000
Subject: [PATCH 58/69] fix: a distributed model that cannot be solved on one
 process does not leave the others waiting

---
 include/gwmodelpp/utils/armampi.h |  3 ++
 src/gwmodelpp/GWRBasic.cpp        | 80 ++++++++++++++++++++++++++++---
 src/gwmodelpp/utils/armampi.cpp   |  7 +++
 3 files changed, 83 insertions(+), 7 deletions(-)

diff --git a/include/gwmodelpp/utils/armampi.h b/include/gwmodelpp/utils/armampi.h
index d1866a0..5ba840d 100644
--- a/include/gwmodelpp/utils/armampi.h
+++ b/include/gwmodelpp/utils/armampi.h
@@ -8,3 +8,6 @@
 #endif  // ARMA_32BIT_WORD
 
 void mat_mul_mpi(arma::mat& a, arma::mat& b, arma::mat& c, const int ip, const int np, const size_t range);
+
+//! Whether a step succeeded on all processes. To be called by all of them.
+bool all_succeeded_mpi(const bool success);
diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index f4dcd85..f9cecee 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -850,7 +850,19 @@ double GWRBasic::indepVarsSelectionCriterionMpi(const vector<size_t>& indepVars)
     sw.weight<BandwidthWeight>()->setBandwidth(DBL_MAX);
     vec shat;
     double aic;
-    mat betas = (this->*mFitCoreSHatFunction)(x, y, sw, shat);
+    mat betas;
+    bool success = true;
+    try
+    {
+        betas = (this->*mFitCoreSHatFunction)(x, y, sw, shat);
+    }
+    catch(const std::exception& e)
+    {
+        success = false;
+    }
+    if (!all_succeeded_mpi(success))
+        return DBL_MAX;
+    GWM_LOG_PROGRESS(++mIndepVarSelectionProgressCurrent, mIndepVarSelectionProgressTotal);
 GWM_MPI_MASTER_BEGIN
     umat received(mWorkerNum, 2, arma::fill::zeros);
     received.row(0).fill(1);
@@ -880,7 +892,12 @@ GWM_MPI_WORKER_BEGIN
     MPI_Send(betas.memptr(), betas.n_elem, MPI_DOUBLE, 0, int(GWRBasicAICMpiTags::Betas), MPI_COMM_WORLD);
 GWM_MPI_WORKER_END
     MPI_Bcast(&aic, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-    return aic;
+    if (mStatus == Status::Success && isfinite(aic))
+    {
+        GWM_LOG_INFO(IVarialbeSelectable::infoVariableCriterion(indepVars, aic));
+        return aic;
+    }
+    else return DBL_MAX;
 }
 
 double GWRBasic::bandwidthSizeCriterionCVMpi(BandwidthWeight* bandwidthWeight)
@@ -888,7 +905,18 @@ double GWRBasic::bandwidthSizeCriterionCVMpi(BandwidthWeight* bandwidthWeight)
     uword nDp = mX.n_rows, nVar = mX.n_cols;
     SpatialWeight sw(bandwidthWeight, mSpatialWeight.distance());
     double cv;
-    mat betas = (this->*mFitCoreCVFunction)(mX, mY, sw).t();
+    mat betas;
+    bool success = true;
+    try
+    {
+        betas = (this->*mFitCoreCVFunction)(mX, mY, sw).t();
+    }
+    catch(const std::exception& e)
+    {
+        success = false;
+    }
+    if (!all_succeeded_mpi(success))
+        return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     uvec received(mWorkerNum, arma::fill::zeros);
     received.row(0).fill(1);
@@ -907,7 +935,14 @@ GWM_MPI_WORKER_BEGIN
     MPI_Send(betas.memptr(), betas.n_elem, MPI_DOUBLE, 0, int(GWRBasicCVMpiTags::Betas), MPI_COMM_WORLD);
 GWM_MPI_WORKER_END
     MPI_Bcast(&cv, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-    return cv;
+    if (mStatus == Status::Success && isfinite(cv))
+    {
+        GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bandwidthWeight, cv));
+        GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - cv)));
+        mBandwidthLastCriterion = cv;
+        return cv;
+    }
+    else return DBL_MAX;
 }
 
 double GWRBasic::bandwidthSizeCriterionAICMpi(BandwidthWeight* bandwidthWeight)
@@ -915,7 +950,18 @@ double GWRBasic::bandwidthSizeCriterionAICMpi(BandwidthWeight* bandwidthWeight)
     SpatialWeight sw(bandwidthWeight, mSpatialWeight.distance());
     double aic;
     vec shat(2, fill::zeros);
-    mat betas = (this->*mFitCoreSHatFunction)(mX, mY, sw, shat);
+    mat betas;
+    bool success = true;
+    try
+    {
+        betas = (this->*mFitCoreSHatFunction)(mX, mY, sw, shat);
+    }
+    catch(const std::exception& e)
+    {
+        success = false;
+    }
+    if (!all_succeeded_mpi(success))
+        return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     umat received(mWorkerNum, 2, arma::fill::zeros);
     received.row(0).fill(1);
@@ -945,14 +991,34 @@ GWM_MPI_WORKER_BEGIN
     MPI_Send(betas.memptr(), betas.n_elem, MPI_DOUBLE, 0, int(GWRBasicAICMpiTags::Betas), MPI_COMM_WORLD);
 GWM_MPI_WORKER_END
     MPI_Bcast(&aic, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-    return aic;
+    if (mStatus == Status::Success && isfinite(aic))
+    {
+        GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bandwidthWeight, aic));
+        GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - aic)));
+        mBandwidthLastCriterion = aic;
+        return aic;
+    }
+    else return DBL_MAX;
 }
 
 arma::mat gwm::GWRBasic::fitMpi()
 {
     // fit GWR on each process
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
-    mBetas = (this->*mFitCoreFunction)(mX, mY, mSpatialWeight).t();
+    std::exception_ptr failure;
+    try
+    {
+        mBetas = (this->*mFitCoreFunction)(mX, mY, mSpatialWeight).t();
+    }
+    catch(const std::exception& e)
+    {
+        failure = std::current_exception();
+    }
+    if (!all_succeeded_mpi(!failure))
+    {
+        if (failure) std::rethrow_exception(failure);
+        throw std::runtime_error("Model fitting failed on another process.");
+    }
     mBetasSE = mBetasSE.t();
     mS = mS.t();
     // gather results to master process
diff --git a/src/gwmodelpp/utils/armampi.cpp b/src/gwmodelpp/utils/armampi.cpp
index 024db9b..b7e22d1 100644
--- a/src/gwmodelpp/utils/armampi.cpp
+++ b/src/gwmodelpp/utils/armampi.cpp
@@ -23,3 +23,10 @@ void mat_mul_mpi(mat& a, mat& b, mat& c, const int ip, const int np, const size_
         MPI_Reduce(ci.memptr(), c.memptr(), ci.n_elem, MPI_DOUBLE, MPI_SUM, pi, MPI_COMM_WORLD);
     }
 }
+
+bool all_succeeded_mpi(const bool success)
+{
+    int local = success ? 1 : 0, global = 0;
+    MPI_Allreduce(&local, &global, 1, MPI_INT, MPI_LAND, MPI_COMM_WORLD);
+    return global != 0;
+}
-- 
2.43.0


From d6a0f0a4ab5e405f6756ae6c4ae6ba7025c60fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:34 +0000
Subject: [PATCH 59/69] fix: distributed multiscale models keep their negative
 coefficients

---
 src/gwmodelpp/GWRMultiscale.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 13408cd..42b955b 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -963,7 +963,7 @@ vec GWRMultiscale::fitVarMpi(const size_t var)
     mat S;
     vec beta_p = (this->*mFitVarCore)(mXi, mYi, mSpatialWeights[var], S);
     vec beta(nDp);
-    MPI_Allreduce(beta_p.memptr(), beta.memptr(), nDp, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
+    MPI_Allreduce(beta_p.memptr(), beta.memptr(), nDp, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
     if (mHasHatMatrix)
     {
         mat SArrayi = mSArray.slice(var) - mS0;
@@ -998,7 +998,7 @@ double GWRMultiscale::bandwidthSizeCriterionVarCVMpi(BandwidthWeight* bandwidthW
     GWM_MPI_MASTER_BEGIN
     betas_all = vec(size(betas));
     GWM_MPI_MASTER_END
-    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_MAX, 0, MPI_COMM_WORLD);
+    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     GWM_MPI_MASTER_BEGIN
     vec residual = mYi - mXi % betas_all;
     cv = sum(residual % residual);
@@ -1039,7 +1039,7 @@ double GWRMultiscale::bandwidthSizeCriterionVarAICMpi(BandwidthWeight* bandwidth
     betas_all = vec(size(betas));
     shat_all = vec(size(shat));
     GWM_MPI_MASTER_END
-    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_MAX, 0, MPI_COMM_WORLD);
+    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     MPI_Reduce(shat.memptr(), shat_all.memptr(), shat.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     GWM_MPI_MASTER_BEGIN
     aic = GWRBasic::AICc(mXi, mYi, betas_all, shat_all);
-- 
2.43.0


From 3480f5d6c33f319b96cf8b838167280e760a6851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:34 +0000
Subject: [PATCH 60/69] fix: a distributed back-fitting step that fails on one
 process does not leave the others waiting

---
 src/gwmodelpp/GWRMultiscale.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 42b955b..76397ae 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -961,7 +961,21 @@ vec GWRMultiscale::fitVarMpi(const size_t var)
 {
     uword nDp = mXi.n_rows;
     mat S;
-    vec beta_p = (this->*mFitVarCore)(mXi, mYi, mSpatialWeights[var], S);
+    vec beta_p;
+    std::exception_ptr failure;
+    try
+    {
+        beta_p = (this->*mFitVarCore)(mXi, mYi, mSpatialWeights[var], S);
+    }
+    catch(const std::exception& e)
+    {
+        failure = std::current_exception();
+    }
+    if (!all_succeeded_mpi(!failure))
+    {
+        if (failure) std::rethrow_exception(failure);
+        throw std::runtime_error("Model fitting failed on another process.");
+    }
     vec beta(nDp);
     MPI_Allreduce(beta_p.memptr(), beta.memptr(), nDp, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
     if (mHasHatMatrix)
-- 
2.43.0


From fc3dc0542a2e51d2bd4fb1d638190ff0a7986127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:34 +0000
Subject: [PATCH 61/69] fix: a fit after a distributed one computes all samples
 again

---
 src/gwmodelpp/GWRBasic.cpp      | 1 +
 src/gwmodelpp/GWRMultiscale.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index f9cecee..1662532 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -64,6 +64,7 @@ mat GWRBasic::fit()
     mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
+    mWorkRange.reset();
 #ifdef ENABLE_MPI
     // Sync x, y, coords with other processes
     if (mParallelType & ParallelType::MPI)
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 76397ae..1cb1232 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -83,6 +83,7 @@ mat GWRMultiscale::fit()
 {
     mStatus = Status::Success;
     uword nDp = mX.n_rows, nVar = mX.n_cols;
+    mWorkRange.reset();
     // ********************************
     // Centering and scaling predictors
     // ********************************
-- 
2.43.0


From db28ac964b65a4c91acc1d6ebc959151f24e8c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:34 +0000
Subject: [PATCH 62/69] fix: workers of a distributed multiscale fit use the
 coordinates they receive

---
 src/gwmodelpp/GWRMultiscale.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 1cb1232..0dca1a2 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -147,9 +147,6 @@ mat GWRMultiscale::fit()
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
 
     GWM_LOG_STAGE("Initializing");
-    createDistanceParameter(nVar);
-    mMaxDistances.resize(nVar);
-    mMinDistances.resize(nVar);
 #ifdef ENABLE_MPI
     if (mParallelType & ParallelType::MPI)
     {
@@ -181,6 +178,9 @@ mat GWRMultiscale::fit()
         mWorkRange = make_pair(workRangeFrom, min(workRangeFrom + mWorkRangeSize, nDp));
     }
 #endif // ENABLE_MPI
+    createDistanceParameter(nVar);
+    mMaxDistances.resize(nVar);
+    mMinDistances.resize(nVar);
 #ifdef ENABLE_CUDA
     if (mParallelType & ParallelType::CUDA)
     {
-- 
2.43.0


From a7f08ac26631402212f1c1e73479c90b7e4a8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:31 +0000
Subject: [PATCH 63/69] fix: percentages of progress never exceed one once an
 iteration has converged

---
 src/gwmodelpp/GWRGeneralized.cpp | 8 ++++----
 src/gwmodelpp/GWRScalable.cpp    | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 3f9129d..8aa8036 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -831,7 +831,7 @@ vec GWRGeneralized::PoissonWtSerial(const mat &x, const vec &y, mat wt)
         double diff = abs((oldLLik - mLLik) / mLLik);
         if (diff < mTol)
         {
-            GWM_LOG_PROGRESS_PERCENT(exp(- (diff - mTol)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- abs(diff - mTol)));
             break;
         }
         mWt2 = mu;
@@ -872,7 +872,7 @@ vec GWRGeneralized::PoissonWtOmp(const mat &x, const vec &y, mat wt)
         double diff = abs((oldLLik - mLLik) / mLLik);
         if (diff < mTol)
         {
-            GWM_LOG_PROGRESS_PERCENT(exp(- (diff - mTol)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- abs(diff - mTol)));
             break;
         }
         mWt2 = mu;
@@ -916,7 +916,7 @@ vec GWRGeneralized::BinomialWtSerial(const mat &x, const vec &y, mat wt)
         double diff = abs((oldLLik - mLLik) / mLLik);
         if (diff < mTol)
         {
-            GWM_LOG_PROGRESS_PERCENT(exp(- (diff - mTol)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- abs(diff - mTol)));
             break;
         }
         mWt2 = n % mu % (1 - mu);
@@ -959,7 +959,7 @@ vec GWRGeneralized::BinomialWtOmp(const mat &x, const vec &y, mat wt)
         double diff = abs((oldLLik - mLLik) / mLLik);
         if (diff < mTol)
         {
-            GWM_LOG_PROGRESS_PERCENT(exp(- (diff - mTol)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- abs(diff - mTol)));
             break;
         }
         mWt2 = n % mu % (1 - mu);
diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 16e302a..6fb3f0b 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -235,7 +235,7 @@ double GWRScalable::optimize(const mat &Mx0, const mat &My0, double& b_tilde, do
             b_tilde = gsl_vector_get(minizer->x, 0);
             alpha = gsl_vector_get(minizer->x, 1);
             cv = minizer->fval;
-            GWM_LOG_PROGRESS_PERCENT(exp(- (size - 1e-6)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- abs(size - 1e-6)));
         }
         while (status == GSL_CONTINUE && iter < mMaxIter);
         b_tilde = gsl_vector_get(minizer->x, 0);
-- 
2.43.0


From f8890abf897c3b4494b7181030d3b00d2cc53bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:39 +0000
Subject: [PATCH 64/69] fix: validity of an algorithm without a weighting is
 answered instead of dereferencing a null pointer

---
 include/gwmodelpp/SpatialMonoscaleAlgorithm.h | 8 ++++++++
 src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp   | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/include/gwmodelpp/SpatialMonoscaleAlgorithm.h b/include/gwmodelpp/SpatialMonoscaleAlgorithm.h
index d95851b..741308a 100644
--- a/include/gwmodelpp/SpatialMonoscaleAlgorithm.h
+++ b/include/gwmodelpp/SpatialMonoscaleAlgorithm.h
@@ -105,6 +105,14 @@ public:
      */
     void createDistanceParameter();
 
+    /**
+     * @brief \~english Whether coordinates, distance and a weight of positive bandwidth are set. \~chinese 坐标、距离和带宽为正的权重是否均已设置。
+     * 
+     * @return true \~english Yes \~chinese 是
+     * @return false \~english No \~chinese 否
+     */
+    virtual bool isValid() override;
+
 protected:
     SpatialWeight mSpatialWeight;   //!< Spatial weight configuration.    
 };
diff --git a/src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp b/src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp
index cba6884..5a01a50 100644
--- a/src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp
+++ b/src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp
@@ -2,6 +2,15 @@
 
 using namespace gwm;
 
+bool SpatialMonoscaleAlgorithm::isValid()
+{
+    if (!SpatialAlgorithm::isValid() || !mSpatialWeight.isValid())
+        return false;
+
+    BandwidthWeight* bw = mSpatialWeight.weight<BandwidthWeight>();
+    return bw != nullptr && bw->bandwidth() > 0;
+}
+
 void SpatialMonoscaleAlgorithm::createDistanceParameter()
 {
     if (mSpatialWeight.distance()->type() == Distance::DistanceType::CRSDistance || 
-- 
2.43.0


From df702fb4129e055154d86be1ad4dba42f2068772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:39 +0000
Subject: [PATCH 65/69] fix: summary statistics, discriminant, component
 analysis and space-time regression check their data for validity

---
 src/gwmodelpp/GTWR.cpp  |  3 +++
 src/gwmodelpp/GWDA.cpp  |  5 ++++-
 src/gwmodelpp/GWPCA.cpp | 17 +++++++++++------
 src/gwmodelpp/GWSS.cpp  |  3 +++
 4 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index c852845..5920376 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -287,6 +287,9 @@ bool GTWR::isValid()
 {
     if (GWRBase::isValid())
     {
+        if (!(vTimes.n_elem == mCoords.n_rows))
+            return false;
+
         double bw = mSpatialWeight.weight<BandwidthWeight>()->bandwidth();
         if (!(bw > 0))
         {
diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index ce30de9..fdbe56b 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -14,11 +14,14 @@ using namespace std;
 // template<class T>
 bool GWDA::isValid()
 {
-    if (SpatialAlgorithm::isValid())
+    if (SpatialMonoscaleAlgorithm::isValid())
     {
         if (!(mX.n_cols > 0))
             return false;
 
+        if (!(mX.n_rows == mY.size() && mX.n_rows == mCoords.n_rows))
+            return false;
+
         return true;
     }
     else
diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index 254c89b..d23f6cf 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -52,13 +52,18 @@ void GWPCA::wpca(const mat& x, const vec& w, mat& V, vec & d)
 
 bool GWPCA::isValid()
 {
-    if (SpatialAlgorithm::isValid())
+    if (SpatialMonoscaleAlgorithm::isValid())
     {
-        if (mK > 0)
-        {
-            return true;
-        }
-        else return false;
+        if (!(mX.n_cols > 0))
+            return false;
+
+        if (!(mX.n_rows == mCoords.n_rows))
+            return false;
+
+        if (!(mK > 0 && (uword)mK <= mX.n_cols))
+            return false;
+
+        return true;
     }
     else return false;
 }
diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index 464a65e..78b9a60 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -51,6 +51,9 @@ bool GWSS::isValid()
         if (!(mX.n_cols > 0))
             return false;
 
+        if (!(mX.n_rows == mCoords.n_rows))
+            return false;
+
         return true;
     }
     else return false;
-- 
2.43.0


From 8579bbe0ee553114d9dbf8e8640cd0ae2aab574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:39 +0000
Subject: [PATCH 66/69] fix: multiscale and density regression check
 coordinates, data and weights for validity

---
 src/gwmodelpp/GWDR.cpp          | 17 +++++++++++++++++
 src/gwmodelpp/GWRMultiscale.cpp | 11 ++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 109d615..860bbfb 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -773,11 +773,28 @@ bool GWDR::isValid()
 {
     if (SpatialAlgorithm::isValid())
     {
+        if (!(mX.n_cols > 0))
+            return false;
+
+        if (!(mX.n_rows == mY.n_rows && mX.n_rows == mCoords.n_rows))
+            return false;
+
         if (!(mSpatialWeights.size() == mCoords.n_cols))
         {
             return false;
         }
 
+        for (auto&& sw : mSpatialWeights)
+        {
+            if (!sw.isValid())
+                return false;
+
+            // the optimization chooses its own initial value in place of a bandwidth out of range
+            BandwidthWeight* bw = sw.weight<BandwidthWeight>();
+            if (bw == nullptr || !(bw->bandwidth() > 0 || mEnableBandwidthOptimize))
+                return false;
+        }
+
         return true;
     }
     else return false;
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 0dca1a2..c3cf5d9 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -451,9 +451,15 @@ double gwm::GWRMultiscale::bandwidthSizeCriterionVarAICBase(BandwidthWeight* ban
 
 bool GWRMultiscale::isValid()
 {
+    if (!SpatialAlgorithm::isValid())
+        return false;
+
     if (!(mX.n_cols > 0))
         return false;
 
+    if (!(mX.n_rows == mY.n_rows && mX.n_rows == mCoords.n_rows))
+        return false;
+
     size_t nVar = mX.n_cols;
 
     if (mSpatialWeights.size() != nVar)
@@ -474,6 +480,9 @@ bool GWRMultiscale::isValid()
     for (size_t i = 0; i < nVar; i++)
     {
         BandwidthWeight* bw = mSpatialWeights[i].weight<BandwidthWeight>();
+        if (!mSpatialWeights[i].isValid() || bw == nullptr)
+            return false;
+
         if (mBandwidthInitilize[i] == GWRMultiscale::Specified || mBandwidthInitilize[i] == GWRMultiscale::Initial)
         {
             if (bw->adaptive())
@@ -483,7 +492,7 @@ bool GWRMultiscale::isValid()
             }
             else
             {
-                if (bw->bandwidth() < 0.0)
+                if (!(bw->bandwidth() > 0.0))
                     return false;
             }
         }
-- 
2.43.0


From 54bc6e74e2de2224488b052e995bba40df94fd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:01 +0000
Subject: [PATCH 67/69] fix: the multi-threaded cross-validation of space-time
 models returned non-finite scores

---
 src/gwmodelpp/GTWR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index 5920376..8d8c37a 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -430,9 +430,9 @@ double GTWR::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwidthWeight)
             }
         }
     }
-    if (mStatus == Status::Success && flag)
+    double cv = sum(cv_all);
+    if (mStatus == Status::Success && flag && isfinite(cv))
     {
-        double cv = sum(cv_all);
         GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bandwidthWeight, cv));
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - cv)));
         mBandwidthLastCriterion = cv;
-- 
2.43.0


From 0e5e19cc588a1961574841e7a7e4b88e4e2f0785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:47 +0000
Subject: [PATCH 68/69] fix: a reused variable selector kept the record of the
 selection before

---
 src/gwmodelpp/VariableForwardSelector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/VariableForwardSelector.cpp b/src/gwmodelpp/VariableForwardSelector.cpp
index 3f1bb76..842b379 100644
--- a/src/gwmodelpp/VariableForwardSelector.cpp
+++ b/src/gwmodelpp/VariableForwardSelector.cpp
@@ -8,6 +8,7 @@ using namespace gwm;
 
 vector<size_t> VariableForwardSelector::optimize(IVarialbeSelectable *instance)
 {
+    mVarsCriterion.clear();
     if (mVariables.empty()) return mVariables;
     vector<size_t> curIndex, restIndex;
     for (size_t i = 0; i < mVariables.size(); i++)
-- 
2.43.0


From 3991425bb5541e773ca2a13ea0f4b172d2dbccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:58 +0000
Subject: [PATCH 69/69] Revert "fix: the multi-threaded cross-validation of
 space-time models returned non-finite scores"

The function is not reachable: the criterion of space-time models is always computed serially.
---
 src/gwmodelpp/GTWR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index 8d8c37a..5920376 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -430,9 +430,9 @@ double GTWR::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwidthWeight)
             }
         }
     }
-    double cv = sum(cv_all);
-    if (mStatus == Status::Success && flag && isfinite(cv))
+    if (mStatus == Status::Success && flag)
     {
+        double cv = sum(cv_all);
         GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bandwidthWeight, cv));
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - cv)));
         mBandwidthLastCriterion = cv;
-- 
2.43.0

