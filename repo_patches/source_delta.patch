From 1f6bc5f53f9eafd056e825796382688fafb0e802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:55 +0000
Subject: [PATCH 01/26] fix: getDDiffTimeVector returned the first-derivative
 time vector

---
 curves/include/curves/PolynomialSpline.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/include/curves/PolynomialSpline.hpp b/curves/include/curves/PolynomialSpline.hpp
index 0695acc..deb5b75 100644
--- a/curves/include/curves/PolynomialSpline.hpp
+++ b/curves/include/curves/PolynomialSpline.hpp
@@ -188,7 +188,7 @@ class PolynomialSpline {
            ddtimeVec.cols() == EigenTimeVectorType::ColsAtCompileTime);
     // https://eigen.tuxfamily.org/dox/TopicFunctionTakingEigenTypes.html
     const_cast<Eigen::MatrixBase<Derived>&>(ddtimeVec) =
-        Eigen::Map<const EigenTimeVectorType>((SplineImplementation::dtau(tk)).data());
+        Eigen::Map<const EigenTimeVectorType>((SplineImplementation::ddtau(tk)).data());
   }
 
   //! Get the second derivative of the time vector evaluated at time tk and add it to the input vector.
-- 
2.43.0


From 71a952a5965e6d252811b3857fc6072097a01a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:55 +0000
Subject: [PATCH 02/26] fix: define the time vectors at zero of linear,
 quadratic and quartic splines

---
 curves/src/polynomial_splines_traits.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/curves/src/polynomial_splines_traits.cpp b/curves/src/polynomial_splines_traits.cpp
index 3c1f093..e63ef00 100644
--- a/curves/src/polynomial_splines_traits.cpp
+++ b/curves/src/polynomial_splines_traits.cpp
@@ -14,11 +14,26 @@ namespace spline_traits {
 template<typename Core_, int SplineOrder_>
 constexpr unsigned int spline_rep<Core_, SplineOrder_>::numCoefficients;
 
+using spline1 = spline_rep<double, 1>;
+constexpr std::array<double, spline1::numCoefficients> spline1::tauZero;
+constexpr std::array<double, spline1::numCoefficients> spline1::dtauZero;
+constexpr std::array<double, spline1::numCoefficients> spline1::ddtauZero;
+
+using spline2 = spline_rep<double, 2>;
+constexpr std::array<double, spline2::numCoefficients> spline2::tauZero;
+constexpr std::array<double, spline2::numCoefficients> spline2::dtauZero;
+constexpr std::array<double, spline2::numCoefficients> spline2::ddtauZero;
+
 using spline3 = spline_rep<double, 3>;
 constexpr std::array<double, spline3::numCoefficients> spline3::tauZero;
 constexpr std::array<double, spline3::numCoefficients> spline3::dtauZero;
 constexpr std::array<double, spline3::numCoefficients> spline3::ddtauZero;
 
+using spline4 = spline_rep<double, 4>;
+constexpr std::array<double, spline4::numCoefficients> spline4::tauZero;
+constexpr std::array<double, spline4::numCoefficients> spline4::dtauZero;
+constexpr std::array<double, spline4::numCoefficients> spline4::ddtauZero;
+
 using spline5 = spline_rep<double, 5>;
 constexpr std::array<double, spline5::numCoefficients> spline5::tauZero;
 constexpr std::array<double, spline5::numCoefficients> spline5::dtauZero;
-- 
2.43.0


From ecce9b0a5e66fdb03c566663339af13adec26fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:55 +0000
Subject: [PATCH 03/26] fix: advance past several splines in one step

---
 curves/include/curves/PolynomialSplineContainer.tpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 99ac23e..594079e 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -43,8 +43,9 @@ bool PolynomialSplineContainer<splineOrder_>::advance(double dt)
   // Advance in time.
   containerTime_ += dt;
 
-  // Check if spline index needs to be increased.
-  if ((containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration())) {
+  // Check if spline index needs to be increased (a step may span several splines).
+  while (activeSplineIdx_ < splines_.size() &&
+      (containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration())) {
     if (activeSplineIdx_ < (splines_.size() - 1)) {
       timeOffset_ += splines_[activeSplineIdx_].getSplineDuration();
     }
-- 
2.43.0


From f4b30055b6692205450bc7e955263640e620c6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:55 +0000
Subject: [PATCH 04/26] fix: setContainerTime on an empty container left an
 invalid spline index

---
 curves/include/curves/PolynomialSplineContainer.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 594079e..50b200a 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -59,6 +59,10 @@ template <int splineOrder_>
 void PolynomialSplineContainer<splineOrder_>::setContainerTime(double t)
 {
   containerTime_ = t;
+  if (splines_.empty()) {
+    // No spline to look up; splines added later are activated from the start.
+    return;
+  }
   activeSplineIdx_ = getActiveSplineIndexAtTime(t, timeOffset_);
 }
 
-- 
2.43.0


From a22b7e628914636c23235c290960943a02703b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:55 +0000
Subject: [PATCH 05/26] fix: addSpline after playback reached the end left a
 stale active spline

---
 curves/include/curves/PolynomialSplineContainer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/curves/include/curves/PolynomialSplineContainer.hpp b/curves/include/curves/PolynomialSplineContainer.hpp
index 5cf5db6..888771e 100644
--- a/curves/include/curves/PolynomialSplineContainer.hpp
+++ b/curves/include/curves/PolynomialSplineContainer.hpp
@@ -48,6 +48,11 @@ class PolynomialSplineContainer {
   //! Add a spline to the container.
   template<typename SplineType_>
   bool addSpline(SplineType_&& spline) {
+    if (!splines_.empty() && containerTime_ >= containerDuration_) {
+      // The container was played to its end: continue with the new spline.
+      activeSplineIdx_ = splines_.size();
+      timeOffset_ = containerDuration_;
+    }
     containerDuration_ += spline.getSplineDuration();
     splines_.emplace_back(std::forward<SplineType_>(spline));
     return true;
-- 
2.43.0


From fb69309b239073ad358c04742e69d1bbb63972bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:55 +0000
Subject: [PATCH 06/26] fix: rejected linear setData left stale or partial
 splines

---
 curves/include/curves/PolynomialSplineContainer.tpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 50b200a..1e069af 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -407,7 +407,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
     const std::vector<double>& knotDurations,
     const std::vector<double>& knotPositions) {
 
-  bool success = true;
+  bool success = reset();
   const int numSplines = knotDurations.size()-1;
   constexpr auto num_coeffs_spline = SplineType::coefficientCount;
   typename SplineType::SplineCoefficients coefficients;
@@ -418,14 +418,13 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
 
   std::fill(coefficients.begin(), coefficients.end(), 0.0);
 
-  success &= reset();
-
   this->reserveSplines(numSplines);
 
   for (int splineId = 0; splineId<numSplines; ++splineId) {
     const double duration = knotDurations[splineId+1]-knotDurations[splineId];
 
     if (duration<=0.0) {
+      reset();
       return false;
     }
 
-- 
2.43.0


From b2e222b0858034f1b07e192ba85eda4198fcebf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:55 +0000
Subject: [PATCH 07/26] fix: fitting a scalar curve from spline options kept
 the earlier curve

---
 curves/include/curves/PolynomialSplineScalarCurve.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/include/curves/PolynomialSplineScalarCurve.hpp b/curves/include/curves/PolynomialSplineScalarCurve.hpp
index c85933b..b632dcb 100644
--- a/curves/include/curves/PolynomialSplineScalarCurve.hpp
+++ b/curves/include/curves/PolynomialSplineScalarCurve.hpp
@@ -131,6 +131,7 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
   virtual void fitCurve(const std::vector<SplineOptions>& optionList,
                         std::vector<Key>* outKeys = NULL)
   {
+    container_.reset();
     container_.reserveSplines(optionList.size());
     for (const auto& options : optionList) {
       container_.addSpline(PolynomialSplineQuintic(options));
-- 
2.43.0


From 12f602405d5434b79a3e0996490502a9237870aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:55 +0000
Subject: [PATCH 08/26] fix: vector curve ignored its start time when
 evaluating and clearing

---
 curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
index ea5f9a9..0459ab1 100644
--- a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
+++ b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
@@ -50,11 +50,12 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
 
   virtual Time getMaxTime() const
   {
-    return containers_.at(0).getContainerDuration();
+    return containers_.at(0).getContainerDuration() + minTime_;
   }
 
   virtual bool evaluate(ValueType& value, Time time) const
   {
+    time -= minTime_;
     for (size_t i = 0; i < N; ++i) {
       value(i) = containers_.at(i).getPositionAtTime(time);
     }
@@ -63,7 +64,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
 
   virtual bool evaluateDerivative(DerivativeType& value, Time time, unsigned derivativeOrder) const
   {
-
+    time -= minTime_;
     for (size_t i = 0; i < N; ++i) {
       if (derivativeOrder == 1) {
         value(i) = containers_.at(i).getVelocityAtTime(time);
@@ -149,6 +150,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
     for (size_t i = 0; i < N; ++i) {
       containers_.at(i).reset();
     }
+    minTime_ = 0.0;
   }
 
   virtual void transformCurve(const ValueType /*T*/)
-- 
2.43.0


From 760480cf8044ad730b2ebfb5ab5b0462e07705eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 09/26] fix: setData with no knots read past the end for orders
 up to three

---
 curves/include/curves/PolynomialSplineContainer.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 1e069af..869af3e 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -262,7 +262,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   const unsigned int solutionSpaceDimension = numSplines*num_coeffs_spline;
   const unsigned int num_junctions = numSplines-1;
 
-  if (numSplines<1) {
+  if (knotDurations.size()<2) {
     std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
     return false;
   }
@@ -339,7 +339,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   const unsigned int solutionSpaceDimension = numSplines*num_coeffs_spline;
   const unsigned int num_junctions = numSplines-1u;
 
-  if (numSplines<1u) {
+  if (knotDurations.size()<2u) {
     std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
     return false;
   }
-- 
2.43.0


From 6a1ba5f6ed2c0ebe820224ebfc41ae30f0b648f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 10/26] fix: LocalSupport2CoefficientManager::equals did not
 compile

---
 .../LocalSupport2CoefficientManager-inl.hpp   | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index ed9f025..b3e5da9 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -32,25 +32,12 @@ bool LocalSupport2CoefficientManager<Coefficient>::equals(const LocalSupport2Coe
   equal &= timeToCoefficient_.size() == other.timeToCoefficient_.size();
   if (equal) {
     CoefficientIter it1, it2;
-    it1 = keyToCoefficient_.begin();
-    it2 = other.keyToCoefficient_.begin();
-    for( ; it1 != keyToCoefficient_.end(); ++it1, ++it2) {
+    it1 = timeToCoefficient_.begin();
+    it2 = other.timeToCoefficient_.begin();
+    for( ; it1 != timeToCoefficient_.end(); ++it1, ++it2) {
       equal &= it1->first == it2->first;
       equal &= it1->second.equals(it2->second);
     }
-
-    CoefficientIter it3, it4;
-    it3 = timeToCoefficient_.begin();
-    it4 = other.timeToCoefficient_.begin();
-    for( ; it3 != timeToCoefficient_.end(); ++it3, ++it4) {
-      equal &= it3->first == it4->first;
-      if (it3->second && it4->second) {
-        equal &= it3->second->equals(*(it4->second));
-      } else {
-        equal &= it3->second == it4->second;
-      }
-    }
-
   }
   return equal;
 }
-- 
2.43.0


From 88a443a33147356cf8b24aef9d26663ffba63d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 11/26] fix: lookup and removal of coefficients by key did not
 compile

---
 .../include/curves/LocalSupport2CoefficientManager-inl.hpp   | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index b3e5da9..a45f666 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -182,7 +182,7 @@ void LocalSupport2CoefficientManager<Coefficient>::removeCoefficientWithKey(Key
   typename TimeToKeyCoefficientMap::iterator it1;
   typename boost::unordered_map<Key, CoefficientIter>::iterator it2;
   it2 = keyToCoefficient_.find(key);
-  it1 = timeToCoefficient_.find(it1->second->first);
+  it1 = timeToCoefficient_.find(it2->second->first);
   timeToCoefficient_.erase(it1);
   keyToCoefficient_.erase(it2);
 }
@@ -208,8 +208,7 @@ bool LocalSupport2CoefficientManager<Coefficient>::hasCoefficientAtTime(Time tim
 /// \brief return true if there is a coefficient with this key
 template <class Coefficient>
 bool LocalSupport2CoefficientManager<Coefficient>::hasCoefficientWithKey(Key key) const {
-  CoefficientIter it = keyToCoefficient_.find(key);
-  return it != keyToCoefficient_.end();
+  return keyToCoefficient_.find(key) != keyToCoefficient_.end();
 }
 
 /// \brief set the coefficient associated with this key
-- 
2.43.0


From d3679e13aa3fbc9a91562c04977c46f4b90983c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 12/26] fix: getCoefficients and getCoefficientsInRange did not
 compile

---
 .../include/curves/LocalSupport2CoefficientManager-inl.hpp  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index a45f666..272432e 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -292,10 +292,10 @@ void LocalSupport2CoefficientManager<Coefficient>::getCoefficientsInRange(
     it--;
     // iterate through coefficients
     for (; it != timeToCoefficient_.end() && it->first < endTime; ++it) {
-      (*outCoefficients)[it->second->key] = it->second->coefficient;
+      (*outCoefficients)[it->second.key] = it->second.coefficient;
     }
     if (it != timeToCoefficient_.end()) {
-      (*outCoefficients)[it->second->key] = it->second->coefficient;
+      (*outCoefficients)[it->second.key] = it->second.coefficient;
     }
   }
 }
@@ -307,7 +307,7 @@ void LocalSupport2CoefficientManager<Coefficient>::getCoefficients(CoefficientMa
   CoefficientIter it;
   it = timeToCoefficient_.begin();
   for( ; it != timeToCoefficient_.end(); ++it) {
-    (*outCoefficients)[it->second->key] = it->second->coefficient;
+    (*outCoefficients)[it->second.key] = it->second.coefficient;
   }
 }
 
-- 
2.43.0


From 8cdf1f24f3d61bb174a946b3a5386b5f3b085f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 13/26] fix: getTimesInWindow dropped the first coefficient and
 ran off a single one

---
 .../curves/LocalSupport2CoefficientManager-inl.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 272432e..bbfea1b 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -80,16 +80,10 @@ void LocalSupport2CoefficientManager<Coefficient>::getTimesInWindow(std::vector<
   CHECK_NOTNULL(outTimes);
 
   outTimes->clear();
-  CoefficientIter it = --(timeToCoefficient_.end());
-
-  do {
-    if (it->first >= begTime) {
-      outTimes->push_back(it->first);
-    }
-    --it;
-  } while (it->first >= begTime && it != timeToCoefficient_.begin());
-
-  std::reverse(outTimes->begin(),outTimes->end());
+  CoefficientIter it = timeToCoefficient_.lower_bound(begTime);
+  for( ; it != timeToCoefficient_.end(); ++it) {
+    outTimes->push_back(it->first);
+  }
 }
 
 template <class Coefficient>
-- 
2.43.0


From 1a70003c022989b8fea5a8639660df5dbfb85248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 14/26] fix: addCoefficientAtEnd on an empty manager
 decremented the end iterator

---
 curves/include/curves/LocalSupport2CoefficientManager-inl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index bbfea1b..fc9c958 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -144,12 +144,12 @@ void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficientsValuesInBat
 
 template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::addCoefficientAtEnd(Time time, const Coefficient& coefficient, std::vector<Key>* outKeys) {
-  CHECK(time > getMaxTime()) << "Time to add is not greater than curve max time";
+  CHECK(empty() || time > getMaxTime()) << "Time to add is not greater than curve max time";
 
   Key key = KeyGenerator::getNextKey();
 
   // Insert the coefficient with a hint that it goes at the end
-  CoefficientIter it = timeToCoefficient_.insert(--(timeToCoefficient_.end()),
+  CoefficientIter it = timeToCoefficient_.insert(timeToCoefficient_.end(),
                                                  std::pair<Time, KeyCoefficient>(time, KeyCoefficient(key, coefficient)));
 
   keyToCoefficient_.insert(keyToCoefficient_.end(), std::pair<Key, CoefficientIter>(key,it));
-- 
2.43.0


From a65ab0346cce54a0f71e758ef1d2b9f2606c8220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 15/26] fix: modifyCoefficient without a time change erased the
 coefficient

---
 curves/include/curves/LocalSupport2CoefficientManager-inl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index fc9c958..9b8c556 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -163,6 +163,10 @@ void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficient(typename Ti
                                                                      Time time, const Coefficient& coefficient) {
   // This is used by slerp sampling policy.
   // In this case a new coefficient should be placed slightly later than the initial one.
+  if (time == it->first) {
+    it->second.coefficient = coefficient;
+    return;
+  }
   CoefficientIter newIt = timeToCoefficient_.insert(it,std::pair<Time, KeyCoefficient>(time, KeyCoefficient(it->second.key, coefficient)));
   // Update keyToCoefficient_
   keyToCoefficient_[it->second.key] = newIt;
-- 
2.43.0


From 9c7c583fbe07f69dbd8fcd6789f89fd5dd626de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 16/26] fix: CSV loaders took the times from the wrong columns

---
 curves/src/helpers.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 1e8a580..8a6ca44 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -71,7 +71,7 @@ void loadTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outTimes
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes->push_back((curves::Time)atof(it->at(1).c_str()));
+    outTimes->push_back((curves::Time)atof(it->at(0).c_str()));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
       tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
     }
@@ -120,8 +120,8 @@ void loadTimeTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outT
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes0->push_back((curves::Time)atof(it->at(1).c_str()));
-    outTimes1->push_back((curves::Time)atof(it->at(2).c_str()));
+    outTimes0->push_back((curves::Time)atof(it->at(0).c_str()));
+    outTimes1->push_back((curves::Time)atof(it->at(1).c_str()));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
       tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
     }
-- 
2.43.0


From d1cc76869c81acbe3c80930e95bd5932ca52e208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 17/26] fix: fitting a cubic Hermite position curve kept the
 earlier curve

---
 curves/src/CubicHermiteE3Curve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 60ad7d3..4284d42 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -175,6 +175,7 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
     coefficients.push_back(Coefficient(values[i], derivative));
   }
 
+  manager_.clear();
   manager_.insertCoefficients(times, coefficients, outKeys);
 }
 
-- 
2.43.0


From f0d9cdf0e302fdfb40787e4420cbf70aa0aea8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:27 +0000
Subject: [PATCH 18/26] fix: rewinding to time zero activated a leading spline
 of zero duration

---
 curves/include/curves/PolynomialSplineContainer.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 869af3e..03ac450 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -82,6 +82,10 @@ bool PolynomialSplineContainer<splineOrder_>::resetTime()
   timeOffset_ = 0.0;
   containerTime_ = 0.0;
   activeSplineIdx_ = 0;
+  if (!splines_.empty()) {
+    // Leading splines of zero duration are not active at time zero.
+    activeSplineIdx_ = getActiveSplineIndexAtTime(containerTime_, timeOffset_);
+  }
   return true;
 }
 
-- 
2.43.0


From b9585e93b1b02a430536a980a7e45e0f5c4c7867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:08 +0000
Subject: [PATCH 19/26] fix: moving a coefficient onto an occupied time
 corrupted the store

---
 curves/include/curves/LocalSupport2CoefficientManager-inl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 9b8c556..88b0c4c 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -167,6 +167,7 @@ void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficient(typename Ti
     it->second.coefficient = coefficient;
     return;
   }
+  CHECK(!this->hasCoefficientAtTime(time)) << "There is already another coefficient at that time.";
   CoefficientIter newIt = timeToCoefficient_.insert(it,std::pair<Time, KeyCoefficient>(time, KeyCoefficient(it->second.key, coefficient)));
   // Update keyToCoefficient_
   keyToCoefficient_[it->second.key] = newIt;
-- 
2.43.0


From c7987f9876d3e15ad1a88e0ff2035c1d4cfc4294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:34 +0000
Subject: [PATCH 20/26] fix: range query on an empty coefficient store walked
 before the first element

---
 curves/include/curves/LocalSupport2CoefficientManager-inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 88b0c4c..26ac030 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -275,7 +275,7 @@ template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::getCoefficientsInRange(
     Time startTime, Time endTime, CoefficientMap* outCoefficients) const {
 
-  if (startTime <= endTime && startTime <= this->getMaxTime()
+  if (!timeToCoefficient_.empty() && startTime <= endTime && startTime <= this->getMaxTime()
       && endTime >= this->getMinTime()) {
     // be forgiving if start time is lower than definition of curve
     if (startTime < this->getMinTime()) {
-- 
2.43.0


From 78a741347a3297752c930414654d553424129e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:37 +0000
Subject: [PATCH 21/26] fix: evaluating an empty Hermite position curve at time
 zero read a missing coefficient

---
 curves/src/CubicHermiteE3Curve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 4284d42..43246ae 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -184,7 +184,7 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
 /// Evaluate the ambient space of the curve.
 bool CubicHermiteE3Curve::evaluate(ValueType& value, Time time) const {
   // Check if the curve is only defined at this one time
-   if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+   if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
      value =  manager_.coefficientBegin()->second.coefficient.getPosition();
      return true;
    }
@@ -237,7 +237,7 @@ bool CubicHermiteE3Curve::evaluateDerivative(DerivativeType& derivative, Time ti
 {
   if (derivativeOrder == 1) {
     // Check if the curve is only defined at this one time
-      if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+      if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
         derivative = manager_.coefficientBegin()->second.coefficient.getVelocity();
         return true;
       }
-- 
2.43.0


From da061261fe7c71a609825560cb645ac88737b1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:46 +0000
Subject: [PATCH 22/26] fix: periodic Hermite fits took the seam slope over the
 wrong time span

---
 curves/src/CubicHermiteE3Curve.cpp  | 3 ++-
 curves/src/CubicHermiteSE3Curve.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 43246ae..e341d8e 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -136,7 +136,8 @@ void CubicHermiteE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    */
   const size_t nPoints = times.size();
   //TODO Add a check on nPoints which should be >= 2 otherwise that breaks.
-  DerivativeType derivative = calculateSlope(times[nPoints-2], times[1], values[nPoints-2], values[1]);
+  const Time period = times[nPoints-1] - times[0];
+  DerivativeType derivative = calculateSlope(times[nPoints-2] - period, times[1], values[nPoints-2], values[1]);
   fitCurveWithDerivatives(times, values, derivative, derivative, outKeys);
 }
 
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index b1f9c28..460d170 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -153,7 +153,8 @@ void CubicHermiteSE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    *
    */
   const size_t nPoints = times.size();
-  CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(times[nPoints-2], times[1], values[nPoints-2], values[1]);
+  const Time period = times[nPoints-1] - times[0];
+  CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(times[nPoints-2] - period, times[1], values[nPoints-2], values[1]);
   fitCurveWithDerivatives(times, values, derivative, derivative, outKeys);
 }
 
-- 
2.43.0


From 1b3086e8c0e2456e91e30edd3323dbde18c3982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:16 +0000
Subject: [PATCH 23/26] fix: evaluating an empty Hermite pose curve at time
 zero read a missing coefficient

---
 curves/src/CubicHermiteSE3Curve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index 460d170..aa34c72 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -195,7 +195,7 @@ void CubicHermiteSE3Curve::extend(const std::vector<Time>& /*times*/,
 
 bool CubicHermiteSE3Curve::evaluate(ValueType& value, Time time) const {
   // Check if the curve is only defined at this one time
-  if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+  if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
     value =  manager_.coefficientBegin()->second.coefficient.getTransformation();
     return true;
   }
@@ -274,7 +274,7 @@ bool CubicHermiteSE3Curve::evaluateDerivative(DerivativeType& derivative,
 {
   if (derivativeOrder == 1) {
     // Check if the curve is only defined at this one time
-    if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+    if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
       derivative = manager_.coefficientBegin()->second.coefficient.getTransformationDerivative();
       return true;
     }
-- 
2.43.0


From 848ddeffb869b21284c40231f8dc2c4a1a49ced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:26 +0000
Subject: [PATCH 24/26] fix: pose and twist of a Hermite pose curve could turn
 in opposite directions at half turns

---
 curves/src/CubicHermiteSE3Curve.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index aa34c72..7c45ea5 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -331,9 +331,10 @@ bool CubicHermiteSE3Curve::evaluateDerivative(DerivativeType& derivative,
       const double beta3 = alpha3;
       const double dbeta3 = 3.0*alpha2;
 
-      const double one_third = 1.0 / 3.0;
-      const Eigen::Vector3d scaled_d_W_A = (one_third*dt_sec ) * d_W_A.getRotationalVelocity().vector();
-      const Eigen::Vector3d scaled_d_W_B = (one_third*dt_sec ) * d_W_B.getRotationalVelocity().vector();
+      // Scale exactly as evaluate() does: at half turns the sign of the logarithm depends on the last bit.
+      const double dt_sec_third = dt_sec / 3.0;
+      const Eigen::Vector3d scaled_d_W_A = dt_sec_third * d_W_A.getRotationalVelocity().vector();
+      const Eigen::Vector3d scaled_d_W_B = dt_sec_third * d_W_B.getRotationalVelocity().vector();
 
       const Eigen::Vector3d w1 = T_W_A.getRotation().inverseRotate(scaled_d_W_A);
       const Eigen::Vector3d w3 = T_W_B.getRotation().inverseRotate(scaled_d_W_B);
-- 
2.43.0


From b7083770f2e22bd7e676c710dccf411d4154a72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:07 +0000
Subject: [PATCH 25/26] fix: refuse trajectory messages that name no joints

With an empty list of joint names the search loop never ran, so its
not-found test inside the loop did not fire and the first entry of
each point was read although no joint had been named (out of range if
the points are empty).
---
 curves_ros/src/RosJointTrajectoryInterface.cpp                  | 2 +-
 curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp          | 2 +-
 .../src/RosMultiDOFJointTrajectoryTranslationInterface.cpp      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves_ros/src/RosJointTrajectoryInterface.cpp b/curves_ros/src/RosJointTrajectoryInterface.cpp
index 0998e76..146a1a0 100644
--- a/curves_ros/src/RosJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosJointTrajectoryInterface.cpp
@@ -31,8 +31,8 @@ bool RosJointTrajectoryInterface::fromMessage(const trajectory_msgs::JointTrajec
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<PolynomialSplineQuinticScalarCurve::ValueType> values;
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
index dceae8e..e4eff81 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
@@ -34,8 +34,8 @@ bool RosMultiDOFJointTrajectoryInterface::fromMessage(
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<CubicHermiteSE3Curve::ValueType> values;
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
index 8961923..00dbe0c 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
@@ -31,8 +31,8 @@ bool RosMultiDOFJointTrajectoryTranslationInterface::fromMessage(
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<PolynomialSplineQuinticVector3Curve::ValueType> values;
-- 
2.43.0


From 0aa4b52d8371bdc87f1b49906b1572afe9aa9104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:33 +0000
Subject: [PATCH 26/26] fix: batch update naming a missing coefficient walked
 off the coefficient map

With a first time that is not stored the search ran past the beginning
of the map, a batch longer than the stored tail dereferenced its end,
and an empty batch read the first of no times. Look the first time up
and refuse missing ones like the other updates do.
---
 .../curves/LocalSupport2CoefficientManager-inl.hpp     | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 26ac030..cd089f9 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -128,14 +128,14 @@ template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficientsValuesInBatch(const std::vector<Time>& times,
                                                                                    const std::vector<Coefficient>& values) {
   CHECK_EQ(times.size(), values.size());
+  if (times.empty()) {
+    return;
+  }
   // Get an iterator to the first coefficient
-  typename TimeToKeyCoefficientMap::iterator it = timeToCoefficient_.end();
-
-  do {
-    --it;
-  } while (it->first != times[0]);
+  typename TimeToKeyCoefficientMap::iterator it = timeToCoefficient_.find(times[0]);
 
   for (size_t i = 0; i < times.size(); ++i) {
+    CHECK(it != timeToCoefficient_.end()) << "No coefficient at that time.";
     CHECK_EQ(it->first,times[i]);
     it->second.coefficient = values[i];
     ++it;
-- 
2.43.0

