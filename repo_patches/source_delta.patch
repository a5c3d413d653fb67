From 6a631918640ce09ca9e597e6d617a6aec651065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:10 +0000
Subject: [PATCH 01/67] fix: isRotationMatrix accepted mirror matrices whose
 third column is along y

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 15b2688..124dac2 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -499,6 +499,7 @@ inline bool isRotationMatrix(const Matrix3 & M, double precision)
   /// The test checks that it is unitary then checks that the cross product of the two first vectors gets you the last
   return (M.isUnitary()
           && (isApproxAbs(M.topLeftCorner<2, 2>().determinant(), M(2, 2), precision)
+              && isApproxAbs(M(2, 0) * M(0, 1) - M(0, 0) * M(2, 1), M(1, 2), precision)
               && isApproxAbs(M.bottomLeftCorner<2, 2>().determinant(), M(0, 2), precision)));
 }
 
-- 
2.43.0


From b49ee2ac545ddc1255380ef9b4b888339420c2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:10 +0000
Subject: [PATCH 02/67] fix: define mergeRoll1Pitch1WithYaw2 with the signature
 that is declared

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 124dac2..6050545 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -407,7 +407,7 @@ inline Matrix3 mergeTiltWithYaw(const Vector3 & Rtez, const Matrix3 & R2, const
   }
 }
 
-inline Matrix3 mergeRoll1Pitch1WithYaw2(const Matrix3 & R1, const Matrix3 & R2, const Vector3 v)
+inline Matrix3 mergeRoll1Pitch1WithYaw2(const Matrix3 & R1, const Matrix3 & R2, const Vector3 & v)
 {
   return mergeTiltWithYaw(R1.transpose() * Vector3::UnitZ(), R2, v);
 }
-- 
2.43.0


From 6d111e55616f1ce2e32022b2944362686a476495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:10 +0000
Subject: [PATCH 03/67] fix: declare regulateOrientationVector under the name
 it is defined and used with

---
 include/state-observation/tools/rigid-body-kinematics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hpp b/include/state-observation/tools/rigid-body-kinematics.hpp
index ee69d3b..80035c5 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hpp
+++ b/include/state-observation/tools/rigid-body-kinematics.hpp
@@ -80,7 +80,7 @@ inline void integrateKinematics(Vector3 & position,
 
 /// Puts the orientation vector norm between 0 and Pi if it
 /// gets close to 2pi
-inline Vector regulateRotationVector(const Vector3 & v);
+inline Vector regulateOrientationVector(const Vector3 & v);
 
 /// Transform the rotation vector into angle axis
 inline AngleAxis rotationVectorToAngleAxis(const Vector3 & v);
-- 
2.43.0


From d2c88255edf91aafb6589bcb95230516917617b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:54 +0000
Subject: [PATCH 04/67] fix: Kinematics::update integrates an acceleration
 alone with dt^2/2

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 6050545..9407bc8 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1371,7 +1371,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
         {
           if(posMethod == useAcceleration)
           {
-            thisPos() += thisAcc() * dt * dt / 0.5;
+            thisPos() += thisAcc() * dt * dt / 2;
           }
         }
       }
@@ -1569,7 +1569,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
         {
           if(posMethod == useAcceleration)
           {
-            thisOri.integrate(thisAcc() * dt * dt / 0.5);
+            thisOri.integrate(thisAcc() * dt * dt / 2);
           }
         }
       }
-- 
2.43.0


From eaa5debb6ec536885e197aa08873c78338324120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:54 +0000
Subject: [PATCH 05/67] fix: Kinematics::update derives the angular
 acceleration from orientations with the right sign and method

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 9407bc8..bf90279 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1530,13 +1530,13 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
     {
       if(accMethod == useOrientation) // then velocity cannot use accelerations
       {
-        thisAcc = 2 * newOri.differentiate(thisOri) / (dt * dt);
+        thisAcc = 2 * thisOri.differentiate(newOri) / (dt * dt);
       }
     }
 
     if(velMethod == useOrientation) // then position cannot use velocity
     {
-      if(accMethod == useVelAndAcc)
+      if(accMethod == useOriAndVel)
       {
         thisAcc = -thisVel();
         thisVel = thisOri.differentiate(newOri) / dt;
-- 
2.43.0


From 3f953558843d42dc383d4e704e701135978a3f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:54 +0000
Subject: [PATCH 06/67] fix: sign of derivateRtvMultiplicative

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index bf90279..576fcfb 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -549,7 +549,7 @@ inline void derivateRotationMultiplicative(const Vector3 & deltaR, Matrix3 & dRd
 /// local frame
 inline Matrix3 derivateRtvMultiplicative(const Matrix3 & R, const Vector3 & v)
 {
-  return -R.transpose() * skewSymmetric(v);
+  return R.transpose() * skewSymmetric(v);
 }
 
 /// derivates a quaternion using finite difference to get a angular velocity vector
-- 
2.43.0


From 2a1675754a3a9084cdaf945d7c0056b65c28f457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:43 +0000
Subject: [PATCH 07/67] fix: IndexedMatrixArrayT::setLastIndex gives the last
 element the requested index

---
 include/state-observation/tools/definitions.hpp | 4 ++--
 include/state-observation/tools/definitions.hxx | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/state-observation/tools/definitions.hpp b/include/state-observation/tools/definitions.hpp
index a9ed2ce..24cf3e9 100644
--- a/include/state-observation/tools/definitions.hpp
+++ b/include/state-observation/tools/definitions.hpp
@@ -469,13 +469,13 @@ public:
   inline TimeIndex getNextIndex() const;
 
   /// Set the time index of the last element
-  inline TimeIndex setLastIndex(int index);
+  inline TimeIndex setLastIndex(TimeIndex index);
 
   /// Get the time index
   inline TimeIndex getFirstIndex() const;
 
   /// set the time index of the first element
-  inline TimeIndex setFirstIndex(int index);
+  inline TimeIndex setFirstIndex(TimeIndex index);
 
   inline TimeSize size() const;
 
diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 6933f0e..8419151 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -353,13 +353,13 @@ inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::getFirstIndex()cons
 }
 
 template <typename MatrixType, typename Allocator>
-inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setLastIndex(int index)
+inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setLastIndex(TimeIndex index)
 {
-  return k_=index-(v_.size()+1);
+  return k_=index-TimeIndex(v_.size())+1;
 }
 
 template <typename MatrixType, typename Allocator>
-inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setFirstIndex(int index)
+inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setFirstIndex(TimeIndex index)
 {
   return k_=index;
 }
-- 
2.43.0


From 382323238a326a421ae933056d1a489e77029ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:43 +0000
Subject: [PATCH 08/67] fix: IndexedMatrixArrayT::truncateBefore keeps the
 element at the given time and the time indexes

---
 include/state-observation/tools/definitions.hxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 8419151..a981062 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -476,18 +476,16 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::truncateBefore(TimeIndex time)
 {
   if (v_.size()>0)
   {
-    if (time < getLastIndex())
+    if (time <= getLastIndex())
     {
-      for (TimeIndex i=getFirstIndex(); i<time ; ++i)
+      while (getFirstIndex() < time)
       {
-        v_.pop_front();
+        popFront();
       }
-
-      setFirstIndex(time);
     }
     else
     {
-      v_.clear();
+      clear();
     }
   }
 }
-- 
2.43.0


From 8267968c65f294b309d9ada8bb7372038c338f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:43 +0000
Subject: [PATCH 09/67] fix: IndexedMatrixArrayT::readFromFile does not append
 an element that is not in the file

---
 include/state-observation/tools/definitions.hxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index a981062..aee2579 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -535,8 +535,15 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::readFromFile(const char * filen
           }
         }
 
-        setValue(m,k);
-        ++k;
+        if (f.fail())
+        {
+          continuation=false;
+        }
+        else
+        {
+          setValue(m,k);
+          ++k;
+        }
       }
     }
   }
-- 
2.43.0


From b267c76bd792cd80439e667c49c7285f679e3673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:43 +0000
Subject: [PATCH 10/67] fix: ZeroDelayObserver::setState clears measurements
 and inputs when going back in time

---
 src/zero-delay-observer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index 3c595aa..8ce4ce9 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -7,9 +7,11 @@ void ZeroDelayObserver::setState(const ObserverBase::StateVector & x_k, TimeInde
 {
   BOOST_ASSERT(checkStateVector(x_k) && "The size of the state vector is incorrect");
 
+  bool goingBack = x_.isSet() && k < x_.getTime();
+
   x_.set(x_k, k);
 
-  if(k < getCurrentTime())
+  if(goingBack)
   {
     y_.clear();
     u_.clear();
-- 
2.43.0


From cb858874ec92c831d0a83b819c9b2bfb38cecc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:43 +0000
Subject: [PATCH 11/67] fix: the observer loop removes past measurements and
 inputs only, and only existing ones

---
 src/zero-delay-observer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index 8ce4ce9..1d38389 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -155,10 +155,16 @@ ObserverBase::StateVector ZeroDelayObserver::getEstimatedState(TimeIndex k)
   for(TimeIndex i = k0; i < k; ++i)
   {
     oneStepEstimation_();
-    if(y_.getFirstIndex() < k) y_.popFront();
+    while(y_.size() > 0 && y_.getFirstIndex() < x_.getTime())
+    {
+      y_.popFront();
+    }
 
     if(p_ > 0)
-      if(u_.getFirstIndex() < k) u_.popFront();
+      while(u_.size() > 0 && u_.getFirstIndex() < x_.getTime())
+      {
+        u_.popFront();
+      }
   }
 
   return x_();
-- 
2.43.0


From 62371fbb0711f18bf58272d961e511bc1ccfccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:43 +0000
Subject: [PATCH 12/67] fix: ZeroDelayObserver::getInputTime requires inputs,
 not measurements

---
 src/zero-delay-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index 1d38389..162a5bd 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -195,7 +195,7 @@ TimeSize ZeroDelayObserver::getInputsNumber() const
 TimeIndex ZeroDelayObserver::getInputTime() const
 {
 
-  BOOST_ASSERT(y_.size() > 0 && "ERROR: There is no measurements registered (past measurements are erased)");
+  BOOST_ASSERT(u_.size() > 0 && "ERROR: There is no inputs registered (past inputs are erased)");
   return u_.getLastIndex();
 }
 
-- 
2.43.0


From 2243400c634e9239d1e48adb13bedd2c15d21d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:43 +0000
Subject: [PATCH 13/67] fix: initialize the measurement tangent size in the
 default constructor of KalmanFilterBase

---
 src/kalman-filter-base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index c108803..1461b5d 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -12,7 +12,7 @@
 namespace stateObservation
 {
 
-KalmanFilterBase::KalmanFilterBase() : nt_(0), arithm_(this) {}
+KalmanFilterBase::KalmanFilterBase() : nt_(0), mt_(0), arithm_(this) {}
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index m, Index p)
 : ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(this)
-- 
2.43.0


From 162b861b8c3d631d8d968ef2c8a68489e76d5fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:43 +0000
Subject: [PATCH 14/67] fix: the extended Kalman filter does not reuse
 predictions of an earlier state, input or functor

---
 .../observer/extended-kalman-filter.hpp       | 15 +++++
 src/extended-kalman-filter.cpp                | 59 ++++++++++++++++++-
 2 files changed, 72 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/observer/extended-kalman-filter.hpp b/include/state-observation/observer/extended-kalman-filter.hpp
index 73a9019..cbcff24 100644
--- a/include/state-observation/observer/extended-kalman-filter.hpp
+++ b/include/state-observation/observer/extended-kalman-filter.hpp
@@ -113,6 +113,15 @@ public:
   /// it must have the size nt (tangent vector)
   virtual Cmatrix getCMatrixFD(const Vector & dx);
 
+  /// The following methods change what the predictions depend on, the stored predictions are then out-of-date
+  virtual void setState(const ObserverBase::StateVector & x_k, TimeIndex k);
+  virtual void setCurrentState(const ObserverBase::StateVector & x_k);
+  virtual void clearStates();
+  virtual void setInput(const ObserverBase::InputVector & u_k, TimeIndex k);
+  virtual void pushInput(const ObserverBase::InputVector & u_k);
+  virtual void clearInputs();
+  virtual void clearInputsAndMeasurements();
+
   /// Reset the extended kalman filter (call also the reset function of the dynamics functor)
   virtual void reset();
 
@@ -135,6 +144,12 @@ protected:
   /// pointer on the dynamics functor
   DynamicalSystemFunctorBase * f_;
 
+  /// tells whether the stored predictions correspond to the current state, inputs and functor
+  bool xbarUpToDate_ = false;
+  bool ybarUpToDate_ = false;
+
+  void invalidatePredictions_();
+
   // optimization
   struct Optimization
   {
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 79e7cde..2a198b8 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -54,6 +54,7 @@ ExtendedKalmanFilter::ExtendedKalmanFilter(Index n,
 void ExtendedKalmanFilter::setFunctor(DynamicalSystemFunctorBase * f)
 {
   f_ = f;
+  invalidatePredictions_();
   // f_->reset();
 }
 
@@ -65,6 +66,7 @@ DynamicalSystemFunctorBase * ExtendedKalmanFilter::getFunctor(void) const
 void ExtendedKalmanFilter::clearFunctor()
 {
   f_ = 0x0;
+  invalidatePredictions_();
 }
 
 void ExtendedKalmanFilter::setDirectInputOutputFeedthrough(bool b)
@@ -72,6 +74,7 @@ void ExtendedKalmanFilter::setDirectInputOutputFeedthrough(bool b)
   if(p_ > 0)
   {
     directInputOutputFeedthrough_ = b;
+    invalidatePredictions_();
   }
 }
 
@@ -80,12 +83,13 @@ void ExtendedKalmanFilter::setDirectInputStateFeedthrough(bool b)
   if(p_ > 0)
   {
     directInputStateProcessFeedthrough_ = b;
+    invalidatePredictions_();
   }
 }
 
 ObserverBase::StateVector ExtendedKalmanFilter::prediction_(TimeIndex k)
 {
-  if(!xbar_.isSet() || xbar_.getTime() != k)
+  if(!xbarUpToDate_ || !xbar_.isSet() || xbar_.getTime() != k)
   {
     if((p_ > 0) && (directInputStateProcessFeedthrough_))
     {
@@ -99,6 +103,8 @@ ObserverBase::StateVector ExtendedKalmanFilter::prediction_(TimeIndex k)
     }
     BOOST_ASSERT(f_ != 0x0 && "ERROR: The Kalman filter functor is not set");
     xbar_.set(f_->stateDynamics(this->x_(), opt.u_, this->x_.getTime()), k);
+    xbarUpToDate_ = true;
+    ybarUpToDate_ = false;
   }
 
   return xbar_();
@@ -107,9 +113,10 @@ ObserverBase::StateVector ExtendedKalmanFilter::prediction_(TimeIndex k)
 ObserverBase::MeasureVector ExtendedKalmanFilter::predictSensor_(TimeIndex k)
 {
 
-  if(!this->ybar_.isSet() || this->ybar_.getTime() != k)
+  if(!ybarUpToDate_ || !this->ybar_.isSet() || this->ybar_.getTime() != k)
   {
     ybar_.set(simulateSensor_(xbar_(), k), k);
+    ybarUpToDate_ = true;
   }
 
   return ybar_();
@@ -210,6 +217,54 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
   return opt.c_;
 }
 
+void ExtendedKalmanFilter::setState(const ObserverBase::StateVector & x_k, TimeIndex k)
+{
+  invalidatePredictions_();
+  KalmanFilterBase::setState(x_k, k);
+}
+
+void ExtendedKalmanFilter::setCurrentState(const ObserverBase::StateVector & x_k)
+{
+  invalidatePredictions_();
+  KalmanFilterBase::setCurrentState(x_k);
+}
+
+void ExtendedKalmanFilter::clearStates()
+{
+  invalidatePredictions_();
+  KalmanFilterBase::clearStates();
+}
+
+void ExtendedKalmanFilter::setInput(const ObserverBase::InputVector & u_k, TimeIndex k)
+{
+  invalidatePredictions_();
+  KalmanFilterBase::setInput(u_k, k);
+}
+
+void ExtendedKalmanFilter::pushInput(const ObserverBase::InputVector & u_k)
+{
+  invalidatePredictions_();
+  KalmanFilterBase::pushInput(u_k);
+}
+
+void ExtendedKalmanFilter::clearInputs()
+{
+  invalidatePredictions_();
+  KalmanFilterBase::clearInputs();
+}
+
+void ExtendedKalmanFilter::clearInputsAndMeasurements()
+{
+  invalidatePredictions_();
+  KalmanFilterBase::clearInputsAndMeasurements();
+}
+
+void ExtendedKalmanFilter::invalidatePredictions_()
+{
+  xbarUpToDate_ = false;
+  ybarUpToDate_ = false;
+}
+
 void ExtendedKalmanFilter::reset()
 {
   KalmanFilterBase::reset();
-- 
2.43.0


From 04e7695529d0938536c2714341cf6a57d54c1314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:43 +0000
Subject: [PATCH 15/67] fix: getCMatrixFD differentiates measurements in their
 tangent space

---
 .../observer/extended-kalman-filter.hpp                |  1 +
 src/extended-kalman-filter.cpp                         | 10 ++++------
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/state-observation/observer/extended-kalman-filter.hpp b/include/state-observation/observer/extended-kalman-filter.hpp
index cbcff24..eb29edc 100644
--- a/include/state-observation/observer/extended-kalman-filter.hpp
+++ b/include/state-observation/observer/extended-kalman-filter.hpp
@@ -161,6 +161,7 @@ protected:
     ObserverBase::StateVector dx_;
     ObserverBase::StateVector xp_;
     ObserverBase::MeasureVector yp_;
+    KalmanFilterBase::MeasureVectorTan dyp_;
 
   } opt;
 
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 2a198b8..6d40f13 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -191,12 +191,10 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
 {
   TimeIndex k = this->x_.getTime();
 
-  opt.c_.resize(m_, nt_);
+  opt.c_.resize(mt_, nt_);
 
   updateStateAndMeasurementPrediction();
 
-  xbar_.set(prediction_(k + 1), k + 1);
-
   opt.dx_.resize(nt_);
 
   for(Index i = 0; i < nt_; ++i)
@@ -208,10 +206,10 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
 
     opt.yp_ = simulateSensor_(opt.xp_, k + 1);
 
-    opt.yp_ -= ybar_();
-    opt.yp_ /= dx[i];
+    arithm_->measurementDifference(opt.yp_, ybar_(), opt.dyp_);
+    opt.dyp_ /= dx[i];
 
-    opt.c_.col(i) = opt.yp_;
+    opt.c_.col(i) = opt.dyp_;
   }
 
   return opt.c_;
-- 
2.43.0


From ec0ee05d52a7418545053ddf9ca69fb5bffd3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:51 +0000
Subject: [PATCH 16/67] fix: a copy of a Kalman filter uses its own state
 arithmetics, not those of the original

---
 .../state-observation/observer/kalman-filter-base.hpp  |  6 ++++++
 src/extended-kalman-filter.cpp                         |  8 ++++----
 src/kalman-filter-base.cpp                             | 10 +++++-----
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/state-observation/observer/kalman-filter-base.hpp b/include/state-observation/observer/kalman-filter-base.hpp
index a4b7bab..6986707 100644
--- a/include/state-observation/observer/kalman-filter-base.hpp
+++ b/include/state-observation/observer/kalman-filter-base.hpp
@@ -375,8 +375,14 @@ protected:
     Matrix t;
   } oc_;
 
+  /// user-defined arithmetics, null when the filter uses its own (so that copies of the filter use theirs)
   StateVectorArithmetics * arithm_;
 
+  inline StateVectorArithmetics & arithmetics_()
+  {
+    return arithm_ != 0x0 ? *arithm_ : *this;
+  }
+
 public:
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 };
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 6d40f13..33027cf 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -173,11 +173,11 @@ KalmanFilterBase::Amatrix // ExtendedKalmanFilter<n,m,p>::Amatrix does not work
     opt.dx_.setZero();
     opt.dx_[i] = dx[i];
 
-    arithm_->stateSum(this->x_(), opt.dx_, opt.x_);
+    arithmetics_().stateSum(this->x_(), opt.dx_, opt.x_);
 
     opt.xp_ = f_->stateDynamics(opt.x_, opt.u_, k);
 
-    arithm_->stateDifference(opt.xp_, xbar_(), opt.dx_);
+    arithmetics_().stateDifference(opt.xp_, xbar_(), opt.dx_);
 
     opt.dx_ /= dx[i];
 
@@ -202,11 +202,11 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
     opt.dx_.setZero();
     opt.dx_[i] = dx[i];
 
-    arithm_->stateSum(xbar_(), opt.dx_, opt.xp_);
+    arithmetics_().stateSum(xbar_(), opt.dx_, opt.xp_);
 
     opt.yp_ = simulateSensor_(opt.xp_, k + 1);
 
-    arithm_->measurementDifference(opt.yp_, ybar_(), opt.dyp_);
+    arithmetics_().measurementDifference(opt.yp_, ybar_(), opt.dyp_);
     opt.dyp_ /= dx[i];
 
     opt.c_.col(i) = opt.dyp_;
diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index 1461b5d..00b2030 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -12,15 +12,15 @@
 namespace stateObservation
 {
 
-KalmanFilterBase::KalmanFilterBase() : nt_(0), mt_(0), arithm_(this) {}
+KalmanFilterBase::KalmanFilterBase() : nt_(0), mt_(0), arithm_(0x0) {}
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index m, Index p)
-: ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(this)
+: ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(0x0)
 {
 }
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index nt, Index m, Index mt, Index p)
-: ZeroDelayObserver(n, m, p), nt_(nt), mt_(mt), arithm_(this)
+: ZeroDelayObserver(n, m, p), nt_(nt), mt_(mt), arithm_(0x0)
 {
 }
 
@@ -122,7 +122,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
   oc_.pbar.noalias() = q_ + a_ * (pr_ * a_.transpose());
 
   // innovation Measurements
-  arithm_->measurementDifference(this->y_[k + 1], ybar_(), oc_.inoMeas);
+  arithmetics_().measurementDifference(this->y_[k + 1], ybar_(), oc_.inoMeas);
   oc_.inoMeasCov.noalias() = r_ + c_ * (oc_.pbar * c_.transpose());
 
   Index & measurementTangentSize = mt_;
@@ -139,7 +139,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
 
   // update
 
-  arithm_->stateSum(xbar_(), innovation_, oc_.xhat);
+  arithmetics_().stateSum(xbar_(), innovation_, oc_.xhat);
 
 #ifdef VERBOUS_KALMANFILTER
   Eigen::IOFormat CleanFmt(2, 0, " ", "\n", "", "");
-- 
2.43.0


From a2a0634652cf72743f6f71a2a7aa2205b98163cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:05 +0000
Subject: [PATCH 17/67] fix: simulating a measurement does not overwrite the
 last predicted measurement of the linear filter

---
 src/linear-kalman-filter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/linear-kalman-filter.cpp b/src/linear-kalman-filter.cpp
index af5d369..621d880 100644
--- a/src/linear-kalman-filter.cpp
+++ b/src/linear-kalman-filter.cpp
@@ -61,13 +61,12 @@ ObserverBase::MeasureVector LinearKalmanFilter::simulateSensor_(const StateVecto
                     "(the measurement at time k needs the input at time k which was not given) "
                     "if you don't need the input in the computation of measurement, you "
                     "must set D matrix to zero");
-    ybar_.set(c_ * x + d_ * u_[k], k);
+    return c_ * x + d_ * u_[k];
   }
   else
   {
-    ybar_.set(c_ * x, k);
+    return c_ * x;
   }
-  return ybar_();
 }
 
 LinearKalmanFilter::Bmatrix LinearKalmanFilter::getBmatrixConstant(double c) const
-- 
2.43.0


From 7c9816bfa4dc0b059e1b9eb501708c7f4e65f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:05 +0000
Subject: [PATCH 18/67] fix: the linear Kalman filter does not require an input
 matrix when there is no input

---
 src/linear-kalman-filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear-kalman-filter.cpp b/src/linear-kalman-filter.cpp
index 621d880..7724662 100644
--- a/src/linear-kalman-filter.cpp
+++ b/src/linear-kalman-filter.cpp
@@ -31,7 +31,7 @@ ObserverBase::StateVector LinearKalmanFilter::prediction_(TimeIndex k)
   (void)k; // unused
 
   BOOST_ASSERT(checkAmatrix(a_) && "ERROR: The A matrix is not initialized");
-  BOOST_ASSERT(checkBmatrix(b_) && "ERROR: The B matrix is not initialized");
+  BOOST_ASSERT((p_ == 0 || checkBmatrix(b_)) && "ERROR: The B matrix is not initialized");
   BOOST_ASSERT(checkCmatrix(c_) && "ERROR: The C matrix is not initialized");
 
   xbar_.set(a_ * x_(), k);
-- 
2.43.0


From 4c5e35f901df71bcf3609ac7178b581d02f66d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:22 +0000
Subject: [PATCH 19/67] fix: AlgebraicSensor accepts a noise together with
 concatenated inputs

---
 src/algebraic-sensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebraic-sensor.cpp b/src/algebraic-sensor.cpp
index 09affd5..fe1a083 100644
--- a/src/algebraic-sensor.cpp
+++ b/src/algebraic-sensor.cpp
@@ -67,7 +67,7 @@ Vector AlgebraicSensor::computeNoisyMeasurement_()
 {
   if(!storedNoiselessMeasurement_)
   {
-    BOOST_ASSERT(checkStateVector(state_) && "The state is not set or incorrectly set");
+    BOOST_ASSERT(state_.size() == getStateSize_() && "The state is not set or incorrectly set");
 
     if(concat_ > 0)
       noiselessMeasurement_ << computeNoiselessMeasurement_(), directInputToOutput_;
-- 
2.43.0


From c93baa8d807573f9915e1582c5e6a6efe5c8040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:10 +0000
Subject: [PATCH 20/67] fix: the IMU and IMU-magnetometer headers can be
 included together

---
 .../dynamical-system/imu-magnetometer-dynamical-system.hpp  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp b/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp
index f7d82a5..96acdb6 100644
--- a/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp
+++ b/include/state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp
@@ -11,8 +11,8 @@
  *
  */
 
-#ifndef IMU_DYNAMICAL_SYSTEM_HPP
-#define IMU_DYNAMICAL_SYSTEM_HPP
+#ifndef IMU_MAGNETOMETER_DYNAMICAL_SYSTEM_HPP
+#define IMU_MAGNETOMETER_DYNAMICAL_SYSTEM_HPP
 
 #include <state-observation/api.h>
 #include <state-observation/dynamical-system/dynamical-system-functor-base.hpp>
@@ -95,4 +95,4 @@ public:
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 };
 } // namespace stateObservation
-#endif // IMU-DYNAMICAL-SYSTEM_HPP
+#endif // IMU-MAGNETOMETER-DYNAMICAL-SYSTEM_HPP
-- 
2.43.0


From 20152774fcfd7722db8a746276401cf00b5667a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:10 +0000
Subject: [PATCH 21/67] fix: Coriolis term of the bidimensional inverted
 pendulum

---
 src/bidim-elastic-inv-pendulum-dyn-sys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
index 032695e..caef4a8 100644
--- a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
+++ b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
@@ -33,7 +33,7 @@ Vector BidimElasticInvPendulum::stateDynamics(const Vector & x, const Vector & u
   double thetadot = x[3];
   double thetadotdot = (1 / (m_ * (p * p + h_ * h_)))
                        * (-k_ * theta - m_ * gravityConstant * (cos(theta) * p - sin(theta) * h_)
-                          + m_ * (h_ * pdotdot - 2 * thetadot * (h_ * pdot)));
+                          + m_ * (h_ * pdotdot - 2 * thetadot * (p * pdot)));
 
   xk1[0] = p + dt_ * pdot;
   xk1[1] = theta + dt_ * thetadot;
-- 
2.43.0


From 863e6988f077f2d4c560605c089c02b7ad3fb19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:10 +0000
Subject: [PATCH 22/67] fix: initialize the elasticity of the bidimensional
 inverted pendulum

---
 src/bidim-elastic-inv-pendulum-dyn-sys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
index caef4a8..89ee3c1 100644
--- a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
+++ b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
@@ -5,7 +5,7 @@ namespace stateObservation
 
 using stateObservation::cst::gravityConstant;
 
-BidimElasticInvPendulum::BidimElasticInvPendulum() : m_(1), h_(1), processNoise_(0x0), dt_(1)
+BidimElasticInvPendulum::BidimElasticInvPendulum() : k_(0), m_(1), h_(1), processNoise_(0x0), dt_(1)
 {
 #ifdef STATEOBSERVATION_VERBOUS_CONSTRUCTORS
   std::cout << std::endl << "IMUFixedContactDynamicalSystem Constructor" << std::endl;
-- 
2.43.0


From ae7cca5ab62f71294c8b2cd720d2f1d6d12580d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 23/67] fix: setWithGyroBias sets the gyrometer bias option,
 not the acceleration one

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 08bfdf0..7c9d0ab 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -497,7 +497,7 @@ void KineticsObserver::setWithAccelerationEstimation(bool b)
 
 void KineticsObserver::setWithGyroBias(bool b)
 {
-  withAccelerationEstimation_ = b;
+  withGyroBias_ = b;
 }
 
 int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer, const Kinematics & localKine, int num)
-- 
2.43.0


From e7af8d3134bcbd99919cf637e004f568f4acc3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 24/67] fix: automatic IMU number is the first one not yet set
 in the iteration

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 7c9d0ab..b514b9d 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -508,7 +508,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
   if(num < 0)
   {
     num = 0;
-    while(imuSensors_[num].time != k_data_ && unsigned(num) < imuSensors_.size())
+    while(unsigned(num) < imuSensors_.size() && imuSensors_[num].time == k_data_)
     {
       ++num;
     }
@@ -566,7 +566,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero,
   if(num < 0)
   {
     num = 0;
-    while(imuSensors_[num].time != k_data_ && unsigned(num) < imuSensors_.size())
+    while(unsigned(num) < imuSensors_.size() && imuSensors_[num].time == k_data_)
     {
       ++num;
     }
-- 
2.43.0


From 512ad3ed1a1c23b6a626dd3e12d21c760c8fc420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 25/67] fix: the IMU kinematics are updated with the time
 elapsed since their last value

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index b514b9d..bf3dbc5 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -544,7 +544,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
   }
   else
   {
-    imu.kinematics.update(localKine, dt_ * (k_data_ - k_data_), flagsIMUKine);
+    imu.kinematics.update(localKine, dt_ * double(k_data_ - imu.time), flagsIMUKine);
   }
 
   imu.time = k_data_;
@@ -603,7 +603,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero,
   }
   else
   {
-    imu.kinematics.update(localKine, dt_ * (k_data_ - k_data_), flagsIMUKine);
+    imu.kinematics.update(localKine, dt_ * double(k_data_ - imu.time), flagsIMUKine);
   }
 
   imu.time = k_data_;
-- 
2.43.0


From ae607f69b235846a7c5e5444c1da4ed44f4e2ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 26/67] fix: removeContact accepts existing contacts,
 clearContacts keeps the contact slots

---
 src/kinetics-observer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index bf3dbc5..be76767 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -964,7 +964,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
 void KineticsObserver::removeContact(int contactNbr)
 {
-  BOOST_ASSERT(!contacts_[contactNbr].isSet && "Tried to remove a non-existing contact.");
+  BOOST_ASSERT(contacts_[contactNbr].isSet && "Tried to remove a non-existing contact.");
   contacts_[contactNbr].isSet = false;
   if(contacts_[contactNbr].withRealSensor)
   {
@@ -975,7 +975,11 @@ void KineticsObserver::removeContact(int contactNbr)
 
 void KineticsObserver::clearContacts()
 {
-  contacts_.clear();
+  for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+  {
+    i->isSet = false;
+    i->withRealSensor = false;
+  }
   numberOfContactRealSensors_ = 0;
 }
 
-- 
2.43.0


From dc378d589ecd11f225396e5e2c33aa820e0dc516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 27/67] fix: getNumberOfContacts counts the contacts currently
 set

---
 src/kinetics-observer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index be76767..96f3160 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -985,7 +985,15 @@ void KineticsObserver::clearContacts()
 
 Index KineticsObserver::getNumberOfContacts() const
 {
-  return contacts_.size();
+  Index number = 0;
+  for(VectorContactConstIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+  {
+    if(i->isSet)
+    {
+      ++number;
+    }
+  }
+  return number;
 }
 
 std::vector<int> KineticsObserver::getListOfContacts() const
-- 
2.43.0


From 6816315106dfd4b244ba1bdf297cdfc982052d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 28/67] fix: addContact uses the given linear stiffness and
 gives the contact state to the filter

---
 src/kinetics-observer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 96f3160..bbfd21e 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -898,7 +898,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
   contact.absPose = pose;
 
-  if(linearDamping != Matrix3::Zero())
+  if(linearStiffness != Matrix3::Zero())
   {
     contact.linearStiffness = linearStiffness;
   }
@@ -936,6 +936,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
   /// update the state vector
   stateVector_.segment<sizeContact>(contact.stateIndex) << pose.toVector(flagsContactKine), Vector6::Zero();
+  ekf_.setState(stateVector_, k_est_);
 
   /// sets the initial covariance matrix
   Matrix stateCovMat = ekf_.getStateCovariance();
-- 
2.43.0


From fbbbefc1574471a513e6dc2f751b95e20855cc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 29/67] fix: covariance blocks of the kinetics observer are
 located with tangent indices

---
 src/kinetics-observer.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index bbfd21e..97465be 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -422,7 +422,7 @@ void KineticsObserver::setStateKinematics(const Kinematics & kine, bool resetFor
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeStateKineTangent>(stateCovariance, stateKinematicsInitCovMat_, kineIndex());
+    setBlockStateCovariance<sizeStateKineTangent>(stateCovariance, stateKinematicsInitCovMat_, kineIndexTangent());
 
     if(resetForces)
     {
@@ -430,7 +430,8 @@ void KineticsObserver::setStateKinematics(const Kinematics & kine, bool resetFor
       {
         if(i->isSet)
         {
-          setBlockStateCovariance<sizeContact>(stateCovariance, contactInitCovMatDefault_, contactIndex(i));
+          setBlockStateCovariance<sizeContactTangent>(stateCovariance, contactInitCovMatDefault_,
+                                                      contactIndexTangent(i));
         }
       }
     }
@@ -446,7 +447,7 @@ void KineticsObserver::setGyroBias(const Vector3 & bias, unsigned numberOfIMU, b
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeGyroBias>(stateCovariance, gyroBiasInitCovMat_, gyroBiasIndex(numberOfIMU));
+    setBlockStateCovariance<sizeGyroBias>(stateCovariance, gyroBiasInitCovMat_, gyroBiasIndexTangent(numberOfIMU));
 
     ekf_.setStateCovariance(stateCovariance);
   }
@@ -460,7 +461,7 @@ void KineticsObserver::setStateUnmodeledWrench(const Vector6 & wrench, bool rese
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeWrench>(stateCovariance, unmodeledWrenchInitCovMat_, unmodeledWrenchIndex());
+    setBlockStateCovariance<sizeWrench>(stateCovariance, unmodeledWrenchInitCovMat_, unmodeledWrenchIndexTangent());
 
     ekf_.setStateCovariance(stateCovariance);
   }
@@ -1211,7 +1212,7 @@ void KineticsObserver::resetProcessCovarianceMat()
 void KineticsObserver::resetProcessKinematicsCovMat()
 {
   Matrix P = ekf_.getProcessCovariance();
-  setBlockStateCovariance<sizeContactTangent>(P, stateKinematicsProcessCovMat_, kineIndexTangent());
+  setBlockStateCovariance<sizeStateKineTangent>(P, stateKinematicsProcessCovMat_, kineIndexTangent());
   ekf_.setProcessCovariance(P);
 }
 
-- 
2.43.0


From faea59e98bdc1fca5d40993ac9e6c3373df32996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 30/67] fix: contact wrench sensors are counted at every
 iteration

---
 src/kinetics-observer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 97465be..5f86829 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1303,6 +1303,10 @@ void KineticsObserver::startNewIteration_()
   if(k_est_ == k_data_)
   {
     ++k_data_;
+    for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+    {
+      i->withRealSensor = false;
+    }
     numberOfContactRealSensors_ = 0;
     currentIMUSensorNumber_ = 0;
   }
-- 
2.43.0


From c3070edb3c98233a6db23320e49286d56b0a1af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 31/67] fix: resetInputs forgets the number of measurements
 already given

---
 src/kinetics-observer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 5f86829..4953952 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1276,9 +1276,12 @@ void KineticsObserver::resetInputs()
   for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
   {
     i->time = k_est_;
+    i->withRealSensor = false;
   }
 
   absPoseSensor_.time = k_est_;
+  numberOfContactRealSensors_ = 0;
+  currentIMUSensorNumber_ = 0;
 }
 
 void KineticsObserver::setFiniteDifferenceStep(const Vector & v)
-- 
2.43.0


From d9ef7175f2451dc49fecb7c7a04c1eab4fc3f7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 32/67] fix: default process covariance of the contact wrenches

---
 src/kinetics-observer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 4953952..202c633 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -124,8 +124,8 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   unmodeledWrenchProcessCovMat_(Matrix6::Identity() * unmodeledWrenchProcessVarianceDefault),
   contactPositionProcessCovMat_(Matrix3::Identity() * contactPositionProcessVarianceDefault),
   contactOrientationProcessCovMat_(Matrix3::Identity() * contactOrientationProcessVarianceDefault),
-  contactForceProcessCovMat_(Matrix3::Identity() * contactForceInitVarianceDefault),
-  contactTorqueProcessCovMat_(Matrix3::Identity() * contactTorqueInitVarianceDefault)
+  contactForceProcessCovMat_(Matrix3::Identity() * contactForceProcessVarianceDefault),
+  contactTorqueProcessCovMat_(Matrix3::Identity() * contactTorqueProcessVarianceDefault)
 {
   ekf_.setFunctor(this);
   ekf_.setStateArithmetics(this);
@@ -160,6 +160,8 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   contactProcessCovMatDefault_.block<sizeTorque, sizeTorque>(9, 9) = contactTorqueProcessCovMat_;
 
   contactInitCovMatDefault_ = contactProcessCovMatDefault_;
+  contactInitCovMatDefault_.block<sizeForce, sizeForce>(6, 6) = Matrix3::Identity() * contactForceInitVarianceDefault;
+  contactInitCovMatDefault_.block<sizeTorque, sizeTorque>(9, 9) = Matrix3::Identity() * contactTorqueInitVarianceDefault;
 
   I_.set(Matrix3::Identity(), k_data_);
   Id_.set(Matrix3::Zero(), k_data_);
-- 
2.43.0


From ff6a9553d045be6c59c761390fd1daf3fc072cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 33/67] fix: contact wrenches come from the deformation with
 respect to the contact rest pose

---
 .../dynamics-estimators/kinetics-observer.hpp |  2 +-
 src/kinetics-observer.cpp                     | 30 +++++--------------
 2 files changed, 9 insertions(+), 23 deletions(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index e776636..73ece68 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -928,7 +928,7 @@ protected:
                              Kinematics & stateKine,
                              Kinematics & contactPose,
                              Vector3 & Force,
-                             Vector3 torque);
+                             Vector3 & torque);
 
   /// Sets a noise which disturbs the state dynamics
   virtual void setProcessNoise(NoiseBase *);
diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 202c633..fc80d08 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1403,7 +1403,7 @@ void KineticsObserver::computeContactForces_(VectorContactIterator i,
                                              Kinematics & stateKine,
                                              Kinematics & contactPose,
                                              Vector3 & force,
-                                             Vector3 torque)
+                                             Vector3 & torque)
 {
   Contact & contact = *i;
 
@@ -1558,30 +1558,16 @@ Vector KineticsObserver::stateDynamics(const Vector & xInput, const Vector & /*u
   {
     if(i->isSet)
     {
-      Kinematics & localKine = i->localKine;
+      /// the rest pose of the contact in the global frame
+      Kinematics contactPose(x.segment<sizeContactKine>(contactKineIndex(i)), flagsContactKine);
 
-      Matrix3 & Kpt = i->linearStiffness;
-      Matrix3 & Kdt = i->linearDamping;
-      Matrix3 & Kpr = i->angularStiffness;
-      Matrix3 & Kdr = i->angularDamping;
+      Vector3 contactForce;
+      Vector3 contactTorque;
 
-      /// the posiiton of the contact in the global frame
-      Kinematics globalKine;
+      computeContactForces_(i, stateKine, contactPose, contactForce, contactTorque);
 
-      globalKine.setToProductNoAlias(stateKine, localKine);
-
-      /// The error between the current kinematics and the rest kinematics
-      /// of the flexibility
-      Kinematics errorKine;
-      errorKine.setToProductNoAlias(globalKine, localKine.getInverse());
-
-      /// Inverse of the orientation of the foot in the global frame
-      Orientation Rcit(globalKine.orientation.inverse());
-
-      x.segment<sizeForce>(contactForceIndex(i)) = -(Rcit * (Kpt * errorKine.position() + Kdt * errorKine.linVel()));
-
-      x.segment<sizeTorque>(contactTorqueIndex(i)) = -(
-          Rcit * (Kpr * kine::vectorComponent(errorKine.orientation.toQuaternion()) * 0.5 + Kdr * errorKine.angVel()));
+      x.segment<sizeForce>(contactForceIndex(i)) = contactForce;
+      x.segment<sizeTorque>(contactTorqueIndex(i)) = contactTorque;
     }
   }
 
-- 
2.43.0


From bb081a84983beed70842fb8767e4bd107afb9f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 34/67] fix: centrifugal term of the kinetics observer,
 position of the center of mass initialized

---
 src/kinetics-observer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index fc80d08..415942f 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -165,6 +165,7 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
 
   I_.set(Matrix3::Identity(), k_data_);
   Id_.set(Matrix3::Zero(), k_data_);
+  com_.set(Vector3::Zero(), k_data_);
   comd_.set(Vector3::Zero(), k_data_);
   comdd_.set(Vector3::Zero(), k_data_);
   sigma_.set(Vector3::Zero(), k_data_);
@@ -1388,7 +1389,7 @@ void KineticsObserver::computeAccelerations_(Kinematics & stateKine,
 {
   Matrix3 Rt = stateKine.orientation.toMatrix3().transpose();
   Vector3 Rtw = Rt * stateKine.angVel();
-  Vector3 corioCentri = 2 * Rtw.cross(comd_() + Rtw.cross(com_()));
+  Vector3 corioCentri = 2 * Rtw.cross(comd_()) + Rtw.cross(Rtw.cross(com_()));
 
   angAcc = stateKine.orientation
            * ((I_() + mass_ * kine::skewSymmetric2(com_())).inverse()
-- 
2.43.0


From e94e73fe906364ae17279a60cf5c68d52cbea688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 35/67] fix: the kinetics observer applies its process and
 measurement noises

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 415942f..ec23b1e 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1574,7 +1574,7 @@ Vector KineticsObserver::stateDynamics(const Vector & xInput, const Vector & /*u
 
   if(processNoise_ != 0x0)
   {
-    processNoise_->getNoisy(x);
+    x = processNoise_->getNoisy(x);
   }
 
   return x;
@@ -1634,7 +1634,7 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
 
   if(measurementNoise_ != 0x0)
   {
-    measurementNoise_->getNoisy(y);
+    y = measurementNoise_->getNoisy(y);
   }
 
   return y;
-- 
2.43.0


From e00365ef184b408f0ef50fabe1006cdb278d41b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 36/67] fix: the gyrometer bias is part of the gyrometer
 measurement

---
 src/kinetics-observer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index ec23b1e..76da7aa 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1616,6 +1616,11 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
       /// gyrometer
       y.segment<sizeGyroSignal>(imu.measIndex + sizeAcceleroSignal).noalias() =
           globalOri.transpose() * globalKine.angVel();
+      if(withGyroBias_)
+      {
+        y.segment<sizeGyroSignal>(imu.measIndex + sizeAcceleroSignal) +=
+            x.segment<sizeGyroBias>(gyroBiasIndex(unsigned(i - imuSensors_.begin())));
+      }
     }
   }
 
-- 
2.43.0


From ddb089f84408ee3b76f3f3f07ab094d3b67c5774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 37/67] fix: state difference is zero for the components which
 are not estimated

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 76da7aa..62c5ec5 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1464,7 +1464,7 @@ void KineticsObserver::stateDifference(const Vector & stateVector1, const Vector
 {
   Orientation & o1 = opt_.ori1;
   Orientation & o2 = opt_.ori2;
-  difference.resize(stateTangentSize_);
+  difference.setZero(stateTangentSize_);
   difference.segment<sizePos>(posIndexTangent()).noalias() =
       stateVector1.segment<sizePos>(posIndex()) - stateVector2.segment<sizePos>(posIndex());
   o1.fromVector4(stateVector1.segment<sizeOri>(oriIndex()));
-- 
2.43.0


From 7e5b191c3dc7cba947eaaeb28b94a790e4b48d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:58 +0000
Subject: [PATCH 38/67] fix: a kinetics observer can be built without IMU

---
 .../dynamics-estimators/kinetics-observer.hxx                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hxx b/include/state-observation/dynamics-estimators/kinetics-observer.hxx
index 1b723a0..f5dd4dd 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hxx
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hxx
@@ -26,7 +26,7 @@ inline unsigned KineticsObserver::gyroBiasIndex( unsigned numberOfIMU) const
 }
 inline unsigned KineticsObserver::unmodeledWrenchIndex() const
 {
-  return gyroBiasIndex(0)+ sizeGyroBias*maxImuNumber_;
+  return angVelIndex() + sizeAngVel + sizeGyroBias*maxImuNumber_;
 }
 inline unsigned KineticsObserver::unmodeledForceIndex() const
 {
@@ -134,7 +134,7 @@ inline unsigned KineticsObserver::gyroBiasIndexTangent( unsigned numberOfIMU) co
 }
 inline unsigned KineticsObserver::unmodeledWrenchIndexTangent() const
 {
-  return gyroBiasIndexTangent(0)+sizeGyroBias*maxImuNumber_;
+  return angVelIndexTangent() + sizeAngVel + sizeGyroBias*maxImuNumber_;
 }
 inline unsigned KineticsObserver::unmodeledForceIndexTangent() const
 {
-- 
2.43.0


From aca0819dbf5a40da7cdb28d4f90c26af62221cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:42 +0000
Subject: [PATCH 39/67] fix: the first kinematics of a contact are not updated
 from unset or unrelated ones

---
 .../dynamics-estimators/kinetics-observer.hpp |  4 ++
 src/kinetics-observer.cpp                     | 50 ++++++++++---------
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index 73ece68..00d6685 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -1004,6 +1004,10 @@ public:
 protected:
   Vector stateNaNCorrection_();
 
+  /// sets the kinematics of a contact in the local frame, the missing velocities are computed from the previous
+  /// kinematics, or are zero when the contact is newly set
+  void updateContactKine_(Contact & contact, const Kinematics & localKine);
+
   /// updates stateKine_ from the stateVector
   void updateKine_();
 
diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 62c5ec5..27c1fda 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -623,6 +623,28 @@ void KineticsObserver::setIMUDefaultCovarianceMatrix(const Matrix3 & acceleroCov
   gyroCovMatDefault_ = gyroCov;
 }
 
+void KineticsObserver::updateContactKine_(Contact & contact, const Kinematics & localKine)
+{
+  if(contact.time == k_data_ - 1 && contact.localKine.position.isSet()) /// the contact is not newly set
+  {
+    contact.localKine.update(localKine, dt_, Contact::localKineFlags);
+  }
+  else /// the contact is newly set
+  {
+    contact.localKine = localKine;
+    BOOST_ASSERT(contact.localKine.position.isSet() && contact.localKine.orientation.isSet()
+                 && "The kinematics of the contact is incorrectly initialized");
+    if(!contact.localKine.linVel.isSet())
+    {
+      contact.localKine.linVel.set().setZero();
+    }
+    if(!contact.localKine.angVel.isSet())
+    {
+      contact.localKine.angVel.set().setZero();
+    }
+  }
+}
+
 void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
                                                      const Kinematics & localKine,
                                                      unsigned contactNumber)
@@ -635,14 +657,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   BOOST_ASSERT((contacts_[contactNumber].isSet) && "Tried to set the wrench of non-existing contact. \
                                             The contact must be added BEFORE setting a contact wrench Sensor");
 
-  if(contacts_[contactNumber].time == k_data_ - 1) /// the contact is not newly set
-  {
-    contacts_[contactNumber].localKine.update(localKine, dt_, Contact::localKineFlags);
-  }
-  else /// the contact is newlyset
-  {
-    contacts_[contactNumber].localKine = localKine;
-  }
+  updateContactKine_(contacts_[contactNumber], localKine);
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
 
@@ -671,14 +686,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   BOOST_ASSERT((contacts_[contactNumber].isSet) && "Tried to set the wrench of non-existing contact. \
                                             The contact must be added BEFORE setting a contact wrench Sensor");
 
-  if(contacts_[contactNumber].time == k_data_ - 1) /// the contact is not newly set
-  {
-    contacts_[contactNumber].localKine.update(localKine, dt_, Contact::localKineFlags);
-  }
-  else /// the contact is newlyset
-  {
-    contacts_[contactNumber].localKine = localKine;
-  }
+  updateContactKine_(contacts_[contactNumber], localKine);
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
   contacts_[contactNumber].sensorCovMatrix = wrenchCovMatrix;
@@ -705,14 +713,7 @@ void KineticsObserver::updateContactWithNoSensor(const Kinematics & localKine, u
   BOOST_ASSERT((contacts_[contactNumber].isSet) && "Tried to set the wrench of non-existing contact. \
                                             The contact must be added BEFORE setting a contact wrench Sensor");
 
-  if(contacts_[contactNumber].time == k_data_ - 1) /// the contact is not newly set
-  {
-    contacts_[contactNumber].localKine.update(localKine, dt_, Contact::localKineFlags);
-  }
-  else /// the contact is newlyset
-  {
-    contacts_[contactNumber].localKine = localKine;
-  }
+  updateContactKine_(contacts_[contactNumber], localKine);
 
   contacts_[contactNumber].time = k_data_;
 
@@ -901,6 +902,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
   contact.stateIndexTangent = contactsIndexTangent() + contactNumber * sizeContactTangent;
 
   contact.absPose = pose;
+  contact.localKine.reset();
 
   if(linearStiffness != Matrix3::Zero())
   {
-- 
2.43.0


From 97a8b273f66c94908ecc516f8233685d199113cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:59 +0000
Subject: [PATCH 40/67] fix: the accelerations of the predicted measurements
 are written in the vectors, not over their flags

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 27c1fda..3f24b06 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1597,8 +1597,8 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
   stateKine.linAcc.set(true);
   stateKine.angAcc.set(true);
 
-  Vector3 & linacc = (Vector3 &)(stateKine.linAcc);
-  Vector3 & angacc = (Vector3 &)(stateKine.angAcc);
+  Vector3 & linacc = stateKine.linAcc(); /// reference (Vector3&)
+  Vector3 & angacc = stateKine.angAcc(); /// reference (Vector3&)
 
   computeAccelerations_(stateKine, forceLocal, torqueLocal, linacc, angacc);
 
-- 
2.43.0


From 78ae4bcb391258dcc3e3281fa8589662bc3fd405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:19 +0000
Subject: [PATCH 41/67] fix: setDcmMeasureErrorStd sets the measurement
 covariance of the DCM estimators

---
 src/lipm-dcm-estimator.cpp        | 4 ++--
 src/unidim-lipm-dcm-estimator.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index a624a09..cedc041 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -169,8 +169,8 @@ void LipmDcmEstimator::setZmpMeasureErrorStd(double std)
 
 void LipmDcmEstimator::setDcmMeasureErrorStd(double std)
 {
-  Matrix2 R;
-  R = dblToSqDiag(std);
+  R_ = dblToSqDiag(std);
+  filter_.setMeasurementCovariance(R_);
 }
 
 void LipmDcmEstimator::update()
diff --git a/src/unidim-lipm-dcm-estimator.cpp b/src/unidim-lipm-dcm-estimator.cpp
index ee7c751..466bca7 100644
--- a/src/unidim-lipm-dcm-estimator.cpp
+++ b/src/unidim-lipm-dcm-estimator.cpp
@@ -162,8 +162,8 @@ void UnidimLipmDcmEstimator::setZmpMeasureErrorStd(double std)
 
 void UnidimLipmDcmEstimator::setDcmMeasureErrorStd(double std)
 {
-  Matrix1 R;
-  R(0, 0) = square(std);
+  R_(0, 0) = square(std);
+  filter_.setMeasurementCovariance(R_);
 }
 
 void UnidimLipmDcmEstimator::setInputs(double dcm, double zmp)
-- 
2.43.0


From 54e468f4e80746ed547d4f81d8e51220eb3d6fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:19 +0000
Subject: [PATCH 42/67] fix: setBiasDriftPerSecond takes the sampling time into
 account and is not forgotten by the next setting

---
 src/lipm-dcm-estimator.cpp        | 4 ++--
 src/unidim-lipm-dcm-estimator.cpp | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index cedc041..6d1adbb 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -132,9 +132,9 @@ void LipmDcmEstimator::setBias(const Vector2 & bias, const Vector2 & uncertainty
 
 void LipmDcmEstimator::setBiasDriftPerSecond(double driftPerSecond)
 {
+  biasDriftStd_ = driftPerSecond;
   /// update the corresponding part in the process noise matrix
-  Q_.bottomRightCorner<2, 2>() = dblToSqDiag(driftPerSecond);
-  filter_.setProcessCovariance(Q_);
+  updateMatricesABQ_();
 }
 
 void LipmDcmEstimator::setBiasLimit(const Vector2 & biasLimit)
diff --git a/src/unidim-lipm-dcm-estimator.cpp b/src/unidim-lipm-dcm-estimator.cpp
index 466bca7..aa0e8c4 100644
--- a/src/unidim-lipm-dcm-estimator.cpp
+++ b/src/unidim-lipm-dcm-estimator.cpp
@@ -130,10 +130,9 @@ void UnidimLipmDcmEstimator::setBias(double bias, double uncertainty)
 
 void UnidimLipmDcmEstimator::setBiasDriftPerSecond(double driftPerSecond)
 {
-  Matrix2 Q = filter_.getProcessCovariance();
+  biasDriftStd_ = driftPerSecond;
   /// update the corresponding part in the process noise matrix
-  Q(1, 1) = square(driftPerSecond);
-  filter_.setProcessCovariance(Q);
+  updateMatricesABQ_();
 }
 
 void UnidimLipmDcmEstimator::setUnbiasedDCM(double dcm)
-- 
2.43.0


From 134a01007f04d257acd76031986ee7d0ab0901c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:19 +0000
Subject: [PATCH 43/67] fix: the bias limits of the DCM estimator act on their
 own axis only and keep the biased DCM

---
 src/lipm-dcm-estimator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 6d1adbb..d9362e1 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -179,7 +179,7 @@ void LipmDcmEstimator::update()
   if(biasLimit_.x() > 0 || biasLimit_.y() > 0)
   {
     Vector2 localBias = getLocalBias();
-    Vector2 clampedLocalBias;
+    Vector2 clampedLocalBias = localBias;
     if(biasLimit_.x() > 0)
     {
       clampedLocalBias.x() = tools::clampScalar(localBias.x(), biasLimit_.x());
@@ -190,7 +190,7 @@ void LipmDcmEstimator::update()
     }
 
     setBias(previousOrientation_ * clampedLocalBias);
-    setUnbiasedDCM(getUnbiasedDCM() + localBias - clampedLocalBias);
+    setUnbiasedDCM(getUnbiasedDCM() + previousOrientation_ * (localBias - clampedLocalBias));
   }
 }
 
-- 
2.43.0


From fc9ef75ae99951d56abfa152d9480d8e62f90767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:19 +0000
Subject: [PATCH 44/67] fix: the DCM estimator processes a pending measurement
 before the next orientation

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index d9362e1..af2fe65 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -198,7 +198,7 @@ void LipmDcmEstimator::setInputs(const Vector2 & dcm, const Vector2 & zmp, const
 {
   if(filter_.stateIsSet())
   {
-    if(filter_.getMeasurementsNumber() > 1)
+    if(filter_.getMeasurementsNumber() > 0)
     {
       update(); /// update the estimation of the state to synchronize with the measurements
     }
-- 
2.43.0


From d1a1d58d37a76f4d98cf94f1a94b7e9e6a006b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 45/67] fix: setting again the input of a time replaces it in
 the simulator

---
 src/dynamical-system-simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 22058ad..56a1657 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -28,7 +28,7 @@ void DynamicalSystemSimulator::setState(const Vector & x, TimeIndex k)
 
 void DynamicalSystemSimulator::setInput(const Vector & u, TimeIndex k)
 {
-  u_.insert(std::pair<TimeIndex, Vector>(k, u));
+  u_[k] = u;
 }
 
 Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
-- 
2.43.0


From 8c51548fa409a0daa9928a7bce437410e2d4141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 46/67] fix: the simulator simulates as far as the requested
 state or measurement requires

---
 src/dynamical-system-simulator.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 56a1657..b01139a 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -33,8 +33,9 @@ void DynamicalSystemSimulator::setInput(const Vector & u, TimeIndex k)
 
 Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
 {
-  BOOST_ASSERT((y_.size() == 0 || y_.getFirstIndex() < k) && "ERROR: Only future measurements can be obtained");
-  if(y_.getNextIndex() < k) simulateDynamicsTo(k);
+  BOOST_ASSERT((y_.size() == 0 || y_.getFirstIndex() <= k) && "ERROR: Only future measurements can be obtained");
+  /// the measurement k is obtained when simulating from k to k+1
+  if(y_.size() == 0 || y_.getNextIndex() <= k) simulateDynamicsTo(k + 1);
 
   return y_[k];
 }
@@ -42,7 +43,7 @@ Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
 Vector DynamicalSystemSimulator::getState(TimeIndex k)
 {
   BOOST_ASSERT((x_.size() == 0 || x_.getFirstIndex() <= k) && "ERROR: Only future measurements can be obtained");
-  if(x_.getLastIndex() < TimeIndex(k)) simulateDynamicsTo(k - 1);
+  if(x_.getLastIndex() < TimeIndex(k)) simulateDynamicsTo(k);
 
   return x_[k];
 }
@@ -89,7 +90,8 @@ void DynamicalSystemSimulator::simulateDynamicsTo(TimeIndex k)
 
 IndexedVectorArray DynamicalSystemSimulator::getMeasurementArray(TimeIndex startingTime, TimeSize duration)
 {
-  BOOST_ASSERT(startingTime > y_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
+  BOOST_ASSERT((y_.size() == 0 || startingTime >= y_.getFirstIndex())
+               && "ERROR: The starting time is too early, try later starting time");
   IndexedVectorArray a;
 
   for(TimeIndex i = startingTime; i < startingTime + TimeIndex(duration); ++i)
@@ -101,7 +103,7 @@ IndexedVectorArray DynamicalSystemSimulator::getMeasurementArray(TimeIndex start
 
 IndexedVectorArray DynamicalSystemSimulator::getStateArray(TimeIndex startingTime, TimeSize duration)
 {
-  BOOST_ASSERT(startingTime > x_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
+  BOOST_ASSERT(startingTime >= x_.getFirstIndex() && "ERROR: The starting time is too early, try later starting time");
 
   IndexedVectorArray a;
 
-- 
2.43.0


From b1654c2df2d18a5c7fadc381b50e127c6a36ea86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 47/67] fix: setting a state in the simulator forgets the
 measurements of the replaced states

---
 src/dynamical-system-simulator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index b01139a..e1a0008 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -23,6 +23,7 @@ void DynamicalSystemSimulator::setState(const Vector & x, TimeIndex k)
                && "ERROR: Only consecutive states can be set. If you want to restart a new dynamics please call "
                   "resetDynamics before");
   x_.truncateAfter(k - 1);
+  y_.truncateAfter(k - 1);
   x_.setValue(x, k);
 }
 
-- 
2.43.0


From 050cdb5cc14c0e0e398d75ce4acaa3e5221abaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 48/67] fix: the simulator refuses a time that precedes all the
 inputs

---
 src/dynamical-system-simulator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index e1a0008..99f2e13 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -64,9 +64,9 @@ Vector DynamicalSystemSimulator::getInput(TimeIndex k) const
   BOOST_ASSERT(u_.size() > 0 && "ERROR: the input is not set");
   std::map<TimeIndex, Vector>::const_iterator i = u_.upper_bound(k);
 
-  --i;
+  BOOST_ASSERT(i != u_.begin() && "ERROR: the input is not set for the current time");
 
-  BOOST_ASSERT(i->first <= k && "ERROR: the input is not set for the current time");
+  --i;
 
   return i->second;
 }
-- 
2.43.0


From 004a4a4af5080088dd26911a46df8c2d14e6f9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 49/67] fix: the logger pushes single variables, and accepts
 pointers to non-constant variables

---
 include/state-observation/tools/logger.hpp |  5 +++++
 include/state-observation/tools/logger.hxx | 20 +++++++++++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/state-observation/tools/logger.hpp b/include/state-observation/tools/logger.hpp
index 808b400..e0c8de0 100644
--- a/include/state-observation/tools/logger.hpp
+++ b/include/state-observation/tools/logger.hpp
@@ -25,6 +25,8 @@ public:
   template<typename T>
   void record(const T * address, const std::string & filename = std::string(""));
   template<typename T>
+  void record(T * address, const std::string & filename = std::string(""));
+  template<typename T>
   void record(const T & reference, const std::string & filename = std::string(""));
 
   /// updates the address of a recorded variable with a new address
@@ -41,6 +43,9 @@ public:
   template<typename T>
   void push(const T * address);
 
+  template<typename T>
+  void push(T * address);
+
   /// updates all the logs for all recorded variables
   void push();
 
diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index f465474..caa59ff 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -27,29 +27,43 @@ namespace stateObservation
       logs_.insert(Tpair(address,log));
     }
 
+    template <typename T>
+    void Logger::record(T * address, const std::string& filename)
+    {
+      record(static_cast<const T *>(address),filename);
+    }
+
     template <typename T>
     void Logger::record(const T & reference, const std::string& filename)
     {
-      record<T>(&reference,filename);
+      record(&reference,filename);
     }
 
     template <typename T>
     void Logger::push(const T * address)
     {
-      Tmap::iterator i= logs_.find( * address );
+      Tmap::iterator i= logs_.find( address );
 
       if (i!=logs_.end())
         update_(i);
       else
+      {
         BOOST_ASSERT(false && "The logger cannot find the data to push, please use record function");
         throw std::invalid_argument
                 ("The logger cannot find the data, please use record function");
+      }
+    }
+
+    template <typename T>
+    void Logger::push(T * address)
+    {
+      push(static_cast<const T *>(address));
     }
 
     template <typename T>
     void Logger::push(const T & reference)
     {
-      push(*reference);
+      push(&reference);
     }
 
     template <typename T>
-- 
2.43.0


From bf670b9dd85e7aa814a103701f4139f73c3489f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 50/67] fix: the logger records unsigned integers

---
 include/state-observation/tools/logger.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index caa59ff..90cc2d6 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -13,6 +13,7 @@ namespace stateObservation
           && *log.type!=typeid(Vector)
           && *log.type!=typeid(Vector3)
           && *log.type!=typeid(int)
+          && *log.type!=typeid(unsigned)
           && *log.type!=typeid(long)
           && *log.type!=typeid(double)
           && *log.type!=typeid(float))
-- 
2.43.0


From bc132205348638890e518900b2419c9b4380e888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 51/67] fix: changing the address of a logged variable keeps
 its record

---
 include/state-observation/tools/logger.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index 90cc2d6..23d7be5 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -79,10 +79,10 @@ namespace stateObservation
       }
       else
       {
-        log_s log(i->second.filename);
+        log_s log(i->second);
         log.setType<T>();
-        logs_.insert(Tpair(newAddress,log));
         logs_.erase(i);
+        logs_.insert(Tpair(newAddress,log));
       }
     }
 
-- 
2.43.0


From fbbbc2f3a6f7c2cc66adba2d9aa5f136ecf40079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 52/67] fix: the finite time control law converges for its
 negative gains, also at the origin

---
 .../state-observation/tools/miscellaneous-algorithms.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/miscellaneous-algorithms.hpp b/include/state-observation/tools/miscellaneous-algorithms.hpp
index 809bbd7..8e96375 100644
--- a/include/state-observation/tools/miscellaneous-algorithms.hpp
+++ b/include/state-observation/tools/miscellaneous-algorithms.hpp
@@ -151,8 +151,13 @@ inline double STATE_OBSERVATION_DLLAPI finiteTimeAccControl(double x, double xd,
   double sax = sqrt(fabs(x));
   double xdr = kp * signum(x) * sax;
   double y = xd - xdr;
-  double ydr = -kv * signum(y) * sqrt(fabs(y));
-  return ydr - kp * xd / (2 * sax);
+  double ydr = kv * signum(y) * sqrt(fabs(y));
+  if(sax == 0)
+  {
+    /// the derivative of xdr is not defined at the origin
+    return ydr;
+  }
+  return ydr + kp * xd / (2 * sax);
 }
 
 /// sqme as the scalar version but for every member of the vector
-- 
2.43.0


From cea805332d7926ffd444799155e41e6f5ca6a715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 53/67] fix: the vector version of the finite time control law
 computes its first component

---
 include/state-observation/tools/miscellaneous-algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/miscellaneous-algorithms.hpp b/include/state-observation/tools/miscellaneous-algorithms.hpp
index 8e96375..2ffa8f9 100644
--- a/include/state-observation/tools/miscellaneous-algorithms.hpp
+++ b/include/state-observation/tools/miscellaneous-algorithms.hpp
@@ -167,7 +167,7 @@ inline Vector STATE_OBSERVATION_DLLAPI finiteTimeAccControl(const Vector & x,
                                                             double kv = -1)
 {
   Vector xdd(x.size());
-  for(Index i = 1; i < x.size(); ++i)
+  for(Index i = 0; i < x.size(); ++i)
   {
     xdd(i) = finiteTimeAccControl(x(i), xd(i), kp, kv);
   }
-- 
2.43.0


From f8aaea5d6a0d370cc001e735673c7c3063d1c5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 54/67] fix: orthogonalizeRotationMatrix never returns a
 reflection

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 576fcfb..26a2207 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -239,7 +239,13 @@ inline Vector3 vectorComponent(const Quaternion & q)
 inline Matrix3 orthogonalizeRotationMatrix(const Matrix3 & M)
 {
   Eigen::JacobiSVD<Matrix3> svd(M, Eigen::ComputeFullU | Eigen::ComputeFullV);
-  return svd.matrixU() * svd.matrixV().transpose();
+  Matrix3 U = svd.matrixU();
+  if((U * svd.matrixV().transpose()).determinant() < 0)
+  {
+    /// the closest rotation flips the direction of the smallest singular value
+    U.col(2) = -U.col(2);
+  }
+  return U * svd.matrixV().transpose();
 }
 
 /// transform a 3d vector into a skew symmetric 3x3 matrix
-- 
2.43.0


From 8249585977e7b2d43a22c9e0cc55e231a93d0d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 55/67] fix: the momentum rates of the elastic model use the
 mass of the robot and its angular velocity

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 3523fd4..af9e3ef 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -173,9 +173,9 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromForces(const Vector
   computeContactWrench(op_.rFlex, op_.positionFlex, op_.contactPosV, op_.contactOriV, fc_, tc_, op_.fm, op_.tm,
                        op_.addForce, op_.addMoment);
 
-  op_.momentaDot.segment<3>(0) = op_.f - hrp2::m * cst::gravity;
+  op_.momentaDot.segment<3>(0) = op_.f - robotMass_ * cst::gravity;
   op_.momentaDot.segment<3>(3) =
-      op_.t - kine::skewSymmetric(op_.rFlex * op_.positionCom + op_.positionFlex) * hrp2::m * cst::gravity;
+      op_.t - kine::skewSymmetric(op_.rFlex * op_.positionCom + op_.positionFlex) * robotMass_ * cst::gravity;
 
   return op_.momentaDot;
 }
@@ -234,10 +234,10 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
 
   computeAccelerations(op_.positionCom, op_.velocityCom, op_.accelerationCom, op_.AngMomentum, op_.dotAngMomentum,
                        op_.inertia, op_.dotInertia, op_.contactPosV, op_.contactOriV, op_.positionFlex,
-                       op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex, op_.velocityFlex,
-                       op_.angularAcceleration, fc_, tc_, op_.fm, op_.tm, op_.addForce, op_.addMoment);
+                       op_.velocityFlex, op_.linearAcceleration, op_.orientationFlexV, op_.rFlex,
+                       op_.angularVelocityFlex, op_.angularAcceleration, fc_, tc_, op_.fm, op_.tm, op_.addForce, op_.addMoment);
 
-  op_.momentaDot.segment<3>(0) = hrp2::m
+  op_.momentaDot.segment<3>(0) = robotMass_
                                  * (kine::skewSymmetric(op_.angularAcceleration) * op_.rFlex * op_.positionCom
                                     + kine::skewSymmetric2(op_.angularVelocityFlex) * op_.rFlex * op_.positionCom
                                     + 2 * kine::skewSymmetric(op_.angularVelocityFlex) * op_.rFlex * op_.velocityCom
@@ -248,7 +248,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::getMomentaDotFromKinematics(const Ve
       + op_.rFlex * op_.inertia * op_.rFlexT * op_.angularAcceleration
       + kine::skewSymmetric(op_.angularVelocityFlex) * op_.rFlex * op_.AngMomentum + op_.rFlex * op_.dotAngMomentum
       + kine::skewSymmetric(op_.positionFlex) * op_.momentaDot.segment<3>(0)
-      + hrp2::m * kine::skewSymmetric(op_.rFlex * op_.positionCom) * op_.linearAcceleration;
+      + robotMass_ * kine::skewSymmetric(op_.rFlex * op_.positionCom) * op_.linearAcceleration;
 
   return op_.momentaDot;
 }
-- 
2.43.0


From caa72a4bd9f3a974748b2cfbec01a8ec8f20e47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 56/67] fix: the process noise of the elastic model disturbs
 the next state

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index af9e3ef..bc90ff0 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -907,7 +907,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::stateDynamics(const Vector & x, cons
   }
 
   if(processNoise_ != 0x0)
-    return processNoise_->getNoisy(op_.xk1);
+    return processNoise_->getNoisy(xk1_);
   else
     return xk1_;
 }
-- 
2.43.0


From a60e7c89703c354595242e2f66f3979d160333ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 57/67] fix: the third Runge-Kutta evaluation of the elastic
 model takes forces as forces

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index bc90ff0..26147b5 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -774,7 +774,7 @@ void IMUElasticLocalFrameDynamicalSystem::iterateDynamicsRK4(const Vector3 & pos
   angVelocity3 = angularVel + (dt / 2) * angAcc2;
 
   computeAccelerations(positionCom, velocityCom, accelerationCom, AngMomentum, dotAngMomentum, inertia, dotInertia,
-                       contactPos, contactOri, pos3, linVelocity3, linAcc3, oriv3, ori3, angVelocity3, angAcc3, tc, fc,
+                       contactPos, contactOri, pos3, linVelocity3, linAcc3, oriv3, ori3, angVelocity3, angAcc3, fc, tc,
                        fm, tm, addForces, addMoments);
 
   ////////////4th/////////////
-- 
2.43.0


From 5568c2ee40345a9457f8527993e4eda6228c986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 58/67] fix: the ropes of the elastic pendulum exert the moment
 of their forces

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 26147b5..ab814ac 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -366,6 +366,7 @@ void IMUElasticLocalFrameDynamicalSystem::computeElastPendulumForcesAndMoments(c
     forces.segment<3>(0) += forcei;
 
     momenti = kine::skewSymmetric(globalContactPos) * forcei;
+    moments.segment<3>(0) += momenti;
 
     if(printed_ == false)
     {
@@ -379,7 +380,7 @@ void IMUElasticLocalFrameDynamicalSystem::computeElastPendulumForcesAndMoments(c
     }
   }
 
-  moments.segment<3>(0) << 0, 0, -KteRopes_(2, 2) * oriVector(2);
+  moments(2) -= KteRopes_(2, 2) * oriVector(2);
   moments.segment<3>(0).noalias() += -KtvRopes_ * angVel;
   forces.segment<3>(0).noalias() += -KfvRopes_ * linVelocity;
 }
-- 
2.43.0


From 78e813e49a9e90e0466e4825e3519c196fb8dd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 59/67] fix: the elastic model can measure before any
 prediction

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index ab814ac..e0c05c9 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -940,7 +940,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::measureDynamics(const Vector & x, co
   op_.orientationFlexV = x.segment(state::ori, 3);
   op_.angularVelocityFlex = x.segment(state::angVel, 3);
 
-  for(unsigned i = 0; i < hrp2::contact::nbModeledMax; ++i) op_.efforts[i] = x.segment(state::fc + 6 * i, 6);
+  for(unsigned i = 0; i < hrp2::contact::nbModeledMax; ++i) op_.efforts.setValue(x.segment(state::fc + 6 * i, 6), i);
 
   op_.fm = x.segment(state::unmodeledForces, 3);
   op_.tm = x.segment(state::unmodeledForces + 3, 3);
-- 
2.43.0


From e4aad968d128d5e2981c5392d79ce290a7ecd289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 60/67] fix: the sampling period of the fixed-contact estimator
 is the one of its model

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 4cb4a79..841d818 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -219,6 +219,7 @@ const Vector & FixedContactEKFFlexEstimatorIMU::getFlexibilityVector()
 void FixedContactEKFFlexEstimatorIMU::setSamplingPeriod(double dt)
 {
   dt_ = dt;
+  functor_.setSamplingPeriod(dt);
 }
 
 } // namespace flexibilityEstimation
-- 
2.43.0


From c82ff425c9b6a6acccfeb35aa9f7b289bda89966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 61/67] fix: a flexibility guess is the estimation until a
 measurement is given

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 2 ++
 src/model-base-ekf-flex-estimator-imu.cpp    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 841d818..72142e0 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -120,6 +120,7 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   if(bstate)
   {
     ekf_.setState(x0, k_);
+    lastX_ = x0;
   }
   else
   {
@@ -132,6 +133,7 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
     x_s.segment(indexes::ori, 3) = x0.tail(3);
 
     ekf_.setState(x_s, k_);
+    lastX_ = x_s;
 
     ekf_.setQ(Q_);
   }
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 82eb8e2..d60f553 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -170,6 +170,7 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   if(bstate)
   {
     ekf_.setState(x0, k_);
+    lastX_ = x0;
   }
   else
   {
@@ -182,6 +183,7 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
     x_s.segment(state::ori, 3) = x0.tail<3>();
 
     ekf_.setState(x_s, k_);
+    lastX_ = x_s;
 
     ekf_.setQ(Q_);
   }
-- 
2.43.0


From cb0f48d47ee241c975820382c0569adaa727802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 62/67] fix: the default covariance of the IMU measurements is
 block diagonal

---
 src/model-base-ekf-flex-estimator-imu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index d60f553..bd1e3b6 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -80,7 +80,7 @@ Matrix ModelBaseEKFFlexEstimatorIMU::getDefaultQ()
 
 Matrix6 ModelBaseEKFFlexEstimatorIMU::getDefaultRIMU()
 {
-  Matrix6 R;
+  Matrix6 R = Matrix6::Zero();
 
   R.block<3, 3>(0, 0) = Matrix3::Identity() * 1.e-6; // accelerometer
   R.block<3, 3>(3, 3) = Matrix3::Identity() * 1.e-6; // gyrometer
-- 
2.43.0


From b89d9120e012ba73f9e696d1024c243f3a0e63bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 63/67] fix: contact forces are limited as forces and contact
 torques as torques

---
 src/model-base-ekf-flex-estimator-imu.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index bd1e3b6..9b8c8b6 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -389,10 +389,15 @@ const Vector & ModelBaseEKFFlexEstimatorIMU::getFlexibilityVector()
           for(int i = 0; i < 3; i++)
           {
             // Saturation for bounded forces and torques
-            lastX_[Index(state::fc + 6 + i)] = std::min(lastX_[Index(state::fc + 6 + i)], limitTorques_[i]);
-            lastX_[Index(state::fc + i)] = std::min(lastX_[Index(state::fc + i)], limitForces_[i]);
-            lastX_[Index(state::fc + 6 + i)] = std::max(lastX_[Index(state::fc + 6 + i)], -limitTorques_[i]);
-            lastX_[Index(state::fc + i)] = std::max(lastX_[Index(state::fc + i)], -limitForces_[i]);
+            for(unsigned contact = 0; contact < hrp2::contact::nbModeledMax; ++contact)
+            {
+              const Index force = Index(state::fc + 6 * contact) + i;
+              const Index torque = force + 3;
+              lastX_[torque] = std::min(lastX_[torque], limitTorques_[i]);
+              lastX_[force] = std::min(lastX_[force], limitForces_[i]);
+              lastX_[torque] = std::max(lastX_[torque], -limitTorques_[i]);
+              lastX_[force] = std::max(lastX_[force], -limitForces_[i]);
+            }
           }
         }
         ekf_.setState(lastX_, ekf_.getCurrentTime());
-- 
2.43.0


From a83e432490325b56662441560a85c53e1fb7ae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 64/67] fix: momentum rates and accelerations pair the
 estimated state with the input of the same time

---
 .../model-base-ekf-flex-estimator-imu.hpp                   | 3 ++-
 src/model-base-ekf-flex-estimator-imu.cpp                   | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
index adc7df6..419e253 100644
--- a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
+++ b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
@@ -67,7 +67,8 @@ public:
 
   virtual stateObservation::Vector computeAccelerations()
   {
-    return functor_.computeAccelerations(getFlexibilityVector(), getInput());
+    const Vector & x = getFlexibilityVector();
+    return functor_.computeAccelerations(x, getInput());
   }
 
   void setContactModel(unsigned nb);
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 9b8c8b6..b3fd2bd 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -227,7 +227,8 @@ Vector ModelBaseEKFFlexEstimatorIMU::getMomentaDotFromForces()
 {
   if(on_ == true)
   {
-    return functor_.getMomentaDotFromForces(getFlexibilityVector(), getInput());
+    const Vector & x = getFlexibilityVector();
+    return functor_.getMomentaDotFromForces(x, getInput());
   }
   else
   {
@@ -241,7 +242,8 @@ Vector ModelBaseEKFFlexEstimatorIMU::getMomentaDotFromKinematics()
 {
   if(on_ == true)
   {
-    return functor_.getMomentaDotFromKinematics(getFlexibilityVector(), getInput());
+    const Vector & x = getFlexibilityVector();
+    return functor_.getMomentaDotFromKinematics(x, getInput());
   }
   else
   {
-- 
2.43.0


From 67c6d83546791b2897faf6a7101deeb8d479c28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 65/67] fix: the measurement covariance follows the sensors in
 use

---
 .../model-base-ekf-flex-estimator-imu.hpp     |  3 +
 src/model-base-ekf-flex-estimator-imu.cpp     | 60 +++++++++----------
 2 files changed, 33 insertions(+), 30 deletions(-)

diff --git a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
index 419e253..7e348f9 100644
--- a/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
+++ b/include/state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp
@@ -247,6 +247,9 @@ protected:
 
   Matrix R_, Q_, P_;
 
+  /// rows of R_ for the forces and for the absolute position
+  Index forceRowsR_, absPosRowsR_;
+
   const Index stateSize_;
 
   static const Index measurementSizeBase_ = 12;
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index b3fd2bd..33667d7 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -15,9 +15,9 @@ ModelBaseEKFFlexEstimatorIMU::ModelBaseEKFFlexEstimatorIMU(double dt)
                               measurementSizeBase_,
                               inputSizeBase_,
                               Matrix::Constant(stateSize, 1, dxFactor)),
-  functor_(dt), stateSize_(stateSize), unmodeledForceVariance_(1e-6), forceVariance_(Matrix::Identity(6, 6) * 1e-4),
-  absPosVariance_(1e-4), useFTSensors_(false), withAbsolutePos_(false), withComBias_(false),
-  withUnmodeledForces_(false), limitOn_(true)
+  functor_(dt), forceRowsR_(0), absPosRowsR_(0), stateSize_(stateSize), unmodeledForceVariance_(1e-6),
+  forceVariance_(Matrix::Identity(6, 6) * 1e-4), absPosVariance_(1e-4), useFTSensors_(false), withAbsolutePos_(false),
+  withComBias_(false), withUnmodeledForces_(false), limitOn_(true)
 {
   ekf_.setMeasureSize(functor_.getMeasurementSize());
   ekf_.setStateSize(stateSize_);
@@ -93,8 +93,9 @@ void ModelBaseEKFFlexEstimatorIMU::resetCovarianceMatrices()
 
   /////// std::cout << "\n\n\n ============> RESET COVARIANCE MATRIX <=============== \n\n\n" << std::endl;
 
-  R_ = Matrix::Identity(getMeasurementSize(), getMeasurementSize());
-  R_.block<6, 6>(0, 0) = getDefaultRIMU();
+  R_ = getDefaultRIMU();
+  forceRowsR_ = 0;
+  absPosRowsR_ = 0;
 
   updateMeasurementCovarianceMatrix_();
   stateObservation::Matrix m;
@@ -204,6 +205,9 @@ void ModelBaseEKFFlexEstimatorIMU::setMeasurementNoiseCovariance(const Matrix &
   /// and have a size multiple of 6
 
   R_ = R;
+  /// what the matrix describes: the IMU, then the forces, then the absolute position
+  forceRowsR_ = std::min(R_.rows() - 6, useFTSensors_ ? Index(functor_.getContactsNumber()) * 6 : 0);
+  absPosRowsR_ = (withAbsolutePos_ && R_.rows() == getMeasurementSize()) ? 6 : 0;
   updateMeasurementCovarianceMatrix_();
 }
 
@@ -267,40 +271,36 @@ Vector ModelBaseEKFFlexEstimatorIMU::getForcesAndMoments()
 void ModelBaseEKFFlexEstimatorIMU::updateMeasurementCovarianceMatrix_()
 {
 
-  if(R_.rows() != getMeasurementSize())
-  {
+  const Index forceRows = useFTSensors_ ? Index(functor_.getContactsNumber()) * 6 : 0;
+  const Index absPosRows = withAbsolutePos_ ? 6 : 0;
 
-    Index realIndex = R_.rows();
-    R_.conservativeResize(getMeasurementSize(), getMeasurementSize());
+  if(R_.rows() != getMeasurementSize() || forceRows != forceRowsR_ || absPosRows != absPosRowsR_)
+  {
+    /// the sensors that are already in the matrix keep their covariance, the others get the default one
+    const Index kept = 6 + std::min(forceRows, forceRowsR_);
+    Matrix R = Matrix::Zero(getMeasurementSize(), getMeasurementSize());
+    R.topLeftCorner(kept, kept) = R_.topLeftCorner(kept, kept);
 
-    Index currIndex = 6;
-    if(useFTSensors_)
+    for(Index i = kept; i < 6 + forceRows; i += 6)
     {
-      /// if the force part of the matrix is not filled
-      if(realIndex < currIndex + functor_.getContactsNumber() * 6)
-      {
-        R_.block(currIndex, 0, functor_.getContactsNumber() * 6, currIndex).setZero();
-        R_.block(0, currIndex, currIndex, functor_.getContactsNumber() * 6).setZero();
-        for(Index i = 0; i < functor_.getContactsNumber(); ++i)
-        {
-          R_.block(currIndex, currIndex, 6, 6) = forceVariance_;
-          currIndex += 6;
-        }
-      }
+      R.block(i, i, 6, 6) = forceVariance_;
     }
 
-    if(withAbsolutePos_)
+    if(absPosRows > 0)
     {
-      if(realIndex < currIndex + 6)
+      if(absPosRowsR_ > 0)
       {
-
-        R_.block(currIndex, 0, 6, currIndex).setZero();
-        R_.block(0, currIndex, currIndex, 6).setZero();
-        R_.block(currIndex, currIndex, 6, 6) = Matrix::Identity(6, 6) * absPosVariance_;
-
-        currIndex += 6;
+        R.bottomRightCorner<6, 6>() = R_.bottomRightCorner<6, 6>();
+      }
+      else
+      {
+        R.bottomRightCorner<6, 6>() = Matrix6::Identity() * absPosVariance_;
       }
     }
+
+    R_ = R;
+    forceRowsR_ = forceRows;
+    absPosRowsR_ = absPosRows;
   }
   ekf_.setR(R_);
 }
-- 
2.43.0


From d6e9b906fd7417574ff9408a305dfd28f5fed06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 66/67] fix: the variances of force and absolute position
 measurements are taken into account when they are set

---
 src/model-base-ekf-flex-estimator-imu.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 33667d7..60d3cac 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -600,18 +600,24 @@ void ModelBaseEKFFlexEstimatorIMU::setUnmodeledForceProcessVariance(double d)
 void ModelBaseEKFFlexEstimatorIMU::setForceVariance(double d)
 {
   forceVariance_ = Matrix::Identity(6, 6) * d;
+  forceRowsR_ = 0;
   updateMeasurementCovarianceMatrix_();
 }
 
 void ModelBaseEKFFlexEstimatorIMU::setForceVariance(const Matrix3 & v)
 {
-  forceVariance_ = v;
+  forceVariance_.topLeftCorner<3, 3>() = v;
+  forceVariance_.topRightCorner<3, 3>().setZero();
+  forceVariance_.bottomLeftCorner<3, 3>().setZero();
+  forceVariance_.bottomRightCorner<3, 3>() = v;
+  forceRowsR_ = 0;
   updateMeasurementCovarianceMatrix_();
 }
 
 void ModelBaseEKFFlexEstimatorIMU::setAbsolutePosVariance(double d)
 {
   absPosVariance_ = d;
+  absPosRowsR_ = 0;
   updateMeasurementCovarianceMatrix_();
 }
 
-- 
2.43.0


From d72ea1393be418b3e0e8c23e9dfa48f12081d8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:04 +0000
Subject: [PATCH 67/67] fix: the flexibility can be guessed by a homogeneous
 matrix

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 11 +++++++----
 src/model-base-ekf-flex-estimator-imu.cpp    | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 72142e0..21f43c8 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -106,7 +106,7 @@ double FixedContactEKFFlexEstimatorIMU::getVirtualMeasurementsCovariance() const
 
 void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 {
-  bool bstate = ekf_.checkStateVector(x);
+  bool bstate = (x.rows() == getStateSize() && x.cols() == 1);
   bool b6 = (x.rows() == 6 && x.cols() == 1);
   bool bhomogeneous = (x.rows() == 4 && x.cols() == 4);
 
@@ -115,7 +115,12 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   BOOST_ASSERT((bstate || b6 || bhomogeneous) && "ERROR: The flexibility state has incorrect size \
                     must be 18x1 vector, 6x1 vector or 4x4 matrix");
 
-  Vector x0 = x;
+  Vector x0;
+
+  if(bhomogeneous)
+    x0 = kine::homogeneousMatrixToVector6(x);
+  else
+    x0 = x;
 
   if(bstate)
   {
@@ -124,8 +129,6 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   }
   else
   {
-    if(bhomogeneous) x0 = kine::homogeneousMatrixToVector6(x);
-
     Vector x_s = ekf_.stateVectorZero();
 
     x_s.segment(indexes::pos, 3) = x0.head(3);
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 60d3cac..8401d88 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -157,7 +157,7 @@ void ModelBaseEKFFlexEstimatorIMU::setMeasurement(const Vector & y)
 
 void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 {
-  bool bstate = ekf_.checkStateVector(x);
+  bool bstate = (x.rows() == getStateSize() && x.cols() == 1);
   bool b6 = (x.rows() == 6 && x.cols() == 1);
   bool bhomogeneous = (x.rows() == 4 && x.cols() == 4);
 
@@ -166,7 +166,12 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   BOOST_ASSERT((bstate || b6 || bhomogeneous) && "ERROR: The flexibility state has incorrect size \
                     must be 23x1 vector, 6x1 vector or 4x4 matrix");
 
-  Vector x0(x);
+  Vector x0;
+
+  if(bhomogeneous)
+    x0 = kine::homogeneousMatrixToVector6(x);
+  else
+    x0 = x;
 
   if(bstate)
   {
@@ -175,8 +180,6 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   }
   else
   {
-    if(bhomogeneous) x0 = kine::homogeneousMatrixToVector6(x);
-
     Vector x_s = ekf_.stateVectorZero();
 
     x_s.segment(state::pos, 3) = x0.head<3>();
-- 
2.43.0

