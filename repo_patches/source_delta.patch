From 816116a8448eaf10714935e2a290b359d5c770f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:09 +0000
Subject: [PATCH 01/36] fix: time-sorted container walked before the first
 element

--begin() on a std::map is undefined: with one or two elements it gave back
an element, so closest-before/closest queries and GetPreviousMeasurement
returned wrong objects, and on an empty container they crashed.  Use the end
iterator as the before-begin marker and never decrement begin().
---
 .../msf_core/implementation/msf_core_inl.h      | 17 ++++++-----------
 msf_core/include/msf_core/msf_sortedContainer.h | 10 +++++++---
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 7742cdf..88507fa 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -720,22 +720,17 @@ MSF_Core<EKFState_T>::GetPreviousMeasurement(
     double time, int sensorID) {
   typename measurementBufferT::iterator_T it = MeasurementBuffer_
       .GetIteratorAtValue(time);
-  if (it->second->time != time) {
+  if (it == MeasurementBuffer_.GetIteratorEnd() || it->second->time != time) {
     MSF_WARN_STREAM("GetPreviousMeasurement: Error invalid iterator at value");
     return MeasurementBuffer_.GetInvalid();
   }
-  --it;
-  typename measurementBufferT::iterator_T itbeforebegin = MeasurementBuffer_
-      .GetIteratorBeforeBegin();
-  while (it != itbeforebegin
-      && (it->second->time != time && it->second->sensorID_ != sensorID)) {
+  while (it != MeasurementBuffer_.GetIteratorBegin()) {
     --it;
+    if (it->second->sensorID_ == sensorID)
+      return it->second;
   }
-  if (it == itbeforebegin) {
-    MSF_WARN_STREAM("GetPreviousMeasurement: Error hit before begin");
-    return MeasurementBuffer_.GetInvalid();
-  }
-  return it->second;
+  MSF_WARN_STREAM("GetPreviousMeasurement: Error hit before begin");
+  return MeasurementBuffer_.GetInvalid();
 }
 
 template<typename EKFState_T>
diff --git a/msf_core/include/msf_core/msf_sortedContainer.h b/msf_core/include/msf_core/msf_sortedContainer.h
index fc0bd83..c7a4187 100644
--- a/msf_core/include/msf_core/msf_sortedContainer.h
+++ b/msf_core/include/msf_core/msf_sortedContainer.h
@@ -107,10 +107,10 @@ class SortedContainer {
 
   /**
    * \brief Returns the iterator before the beginning of the internal container.
+   * A std::map has no such position, so this is the end iterator.
    */
   inline typename ListT::iterator GetIteratorBeforeBegin() {
-    typename ListT::iterator it = stateList.begin();
-    return --it;
+    return stateList.end();
   }
 
   /**
@@ -159,13 +159,17 @@ class SortedContainer {
   }
 
   /**
-   * \brief Returns the iterator closest before a specific time instant
+   * \brief Returns the iterator closest before a specific time instant or the
+   * iterator before begin if there is no object before this time.
    * \param time The time where we want to get an iterator at.
    * \returns iterator.
    */
   inline typename ListT::iterator GetIteratorClosestBefore(
       const double& statetime) {
     typename ListT::iterator it = stateList.lower_bound(statetime);
+    if (it == stateList.begin()) {
+      return GetIteratorBeforeBegin();
+    }
     --it;
     return it;
   }
-- 
2.43.0


From f3a76f4ac6b201d086709e402935b5b20aae4a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:09 +0000
Subject: [PATCH 02/36] fix: age-based clean-up dereferenced the end of an
 empty container

---
 msf_core/include/msf_core/msf_sortedContainer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msf_core/include/msf_core/msf_sortedContainer.h b/msf_core/include/msf_core/msf_sortedContainer.h
index c7a4187..a9fd774 100644
--- a/msf_core/include/msf_core/msf_sortedContainer.h
+++ b/msf_core/include/msf_core/msf_sortedContainer.h
@@ -305,6 +305,8 @@ class SortedContainer {
    * \returns shared pointer of the object.
    */
   inline void ClearOlderThan(double age) {
+    if (stateList.empty())
+      return;
     double newest = GetLast()->time;
     double oldest = GetFirst()->time;
     if (newest - oldest < age)
-- 
2.43.0


From a37e0dc8437c4ab667ed96e1e40fb880f7f176b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:37 +0000
Subject: [PATCH 03/36] fix: iterator to the last IMU state dangled after a
 start-up gap or an external state

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 88507fa..18d6740 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -108,7 +108,9 @@ void MSF_Core<EKFState_T>::ProcessIMU(
     it_last_IMU = stateBuffer_.GetIteratorClosestBefore(msg_stamp);
   }
 
-  shared_ptr<EKFState_T> lastState = it_last_IMU->second;
+  shared_ptr<EKFState_T> lastState =
+      it_last_IMU == stateBuffer_.GetIteratorEnd() ?
+          stateBuffer_.GetInvalid() : it_last_IMU->second;
   timer_PropGetClosestState.Stop();
 
   msf_timing::DebugTimer timer_PropPrepare("PropPrepare");
@@ -167,6 +169,8 @@ void MSF_Core<EKFState_T>::ProcessIMU(
           2, "large time-gap re-initializing to last state\n");
       typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
           lastState->time, currentState->time);
+      // The map entry was replaced, the old iterator is not valid anymore.
+      it_last_IMU = stateBuffer_.GetIteratorAtValue(tmp);
       time_P_propagated = currentState->time;
       return;  // // early abort // // (if timegap too big)
     }
@@ -254,6 +258,7 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     if (fabs(currentState->time - lastState->time) > 5) {
       typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
           lastState->time, currentState->time);
+      it_last_IMU = stateBuffer_.GetIteratorAtValue(tmp);
       MSF_WARN_STREAM_THROTTLE(
           2, "large time-gap re-initializing to last state: "
           << msf_core::timehuman(tmp->time));
@@ -295,7 +300,7 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     }
   }
 
-  stateBuffer_.Insert(currentState);
+  it_last_IMU = stateBuffer_.Insert(currentState);
   PropagatePOneStep();
   predictionMade_ = true;
   usercalc_.PublishStateAfterPropagation(currentState);
-- 
2.43.0


From 81c77df573ef15f7d9d998739431105b52ff721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:37 +0000
Subject: [PATCH 04/36] fix: a measurement repeating a buffered time stamp
 applied the buffered one again

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 18d6740..5d5691e 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -633,6 +633,10 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   // Add this measurement to the buffer and get an iterator to it.
   typename measurementBufferT::iterator_T it_meas =
       MeasurementBuffer_.Insert(measurement);
+  if (it_meas->second != measurement) {
+    MSF_WARN_STREAM("There is already a measurement at this time. Discarding.");
+    return;
+  }
   // Get an iterator the the end of the measurement buffer.
   typename measurementBufferT::iterator_T it_meas_end = MeasurementBuffer_
       .GetIteratorEnd();
-- 
2.43.0


From 44f0580fea99ef7d4f500b85559a75a4a6f96510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:37 +0000
Subject: [PATCH 05/36] fix: covariance counted later measurements twice after
 a rejected delayed one

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 5d5691e..8913c8a 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -666,6 +666,11 @@ void MSF_Core<EKFState_T>::AddMeasurement(
     msf_timing::DebugTimer timer_meas_apply("Apply measurement");
     // Calls back core::ApplyCorrection(), which sets time_P_propagated to meas
     // time.
+    // If the measurement gets rejected, the covariances after this state have to
+    // be recomputed nevertheless, they contain the updates we repeat below.
+    if (time_P_propagated > state->time) {
+      time_P_propagated = state->time;
+    }
     it_meas->second->Apply(state, *this);
     timer_meas_apply.Stop();
     // Make sure to propagate to next measurement or up to now if no more
-- 
2.43.0


From 85b6c6eeeea50ca7cba1cd5a57d08b012c7a71b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:37 +0000
Subject: [PATCH 06/36] fix: measurement in an IMU gap made later measurements
 count twice

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 8913c8a..a786714 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -629,6 +629,13 @@ void MSF_Core<EKFState_T>::AddMeasurement(
             "buffer: "<<timehuman(stateBuffer_.GetFirst()->time)<<" (s)]");
     return;  // Reject measurements too far in the past.
   }
+  // Check if there is a state close to the measurement (gap in the IMU data).
+  if (!(fabs(stateBuffer_.GetClosest(measurement->time)->time
+      - measurement->time) <= 0.1)) {
+    MSF_WARN_STREAM("There is no state close to the time of the measurement, "
+        "rejecting it.");
+    return;
+  }
 
   // Add this measurement to the buffer and get an iterator to it.
   typename measurementBufferT::iterator_T it_meas =
-- 
2.43.0


From 798db25b571d6bd616a061329c01576c775833aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:37 +0000
Subject: [PATCH 07/36] fix: buffers were cleaned while in use and never
 without measurements

---
 .../include/msf_core/implementation/msf_core_inl.h   | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index a786714..ea41cf2 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -208,6 +208,8 @@ void MSF_Core<EKFState_T>::ProcessIMU(
   }
   seq++;
 
+  // Remove very old states and measurements from the buffers.
+  CleanUpBuffers();
 }
 
 template<typename EKFState_T>
@@ -311,6 +313,9 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
 
   // Check if we can apply some pending measurement.
   HandlePendingMeasurements();
+
+  // Remove very old states and measurements from the buffers.
+  CleanUpBuffers();
 }
 
 template<typename EKFState_T>
@@ -833,13 +838,6 @@ shared_ptr<EKFState_T> MSF_Core<EKFState_T>::GetClosestState(double tstamp) {
         __FUNCTION__<< " State interpolation: interpolated state is invalid (nan)");
     return stateBuffer_.GetInvalid();  // Early abort.
   }
-
-  static int janitorRun = 0;
-  if (janitorRun++ > 100) {
-    // Remove very old states and measurements from the buffers.
-    CleanUpBuffers();
-    janitorRun = 0;
-  }
   return closestState;
 }
 
-- 
2.43.0


From c4ec4fec20b82dd46a51f6f8f9b9772377ccd5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:37 +0000
Subject: [PATCH 08/36] fix: transitions of the stochastic cloning were
 multiplied in reverse order

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index ea41cf2..82bda2f 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -445,7 +445,7 @@ void MSF_Core<EKFState_T>::GetAccumulatedStateTransitionStochasticCloning(
       MSF_Core<EKFState_T>::nErrorStatesAtCompileTime> F_type;
   F = F_type::Identity();
   for (; it != itend; ++it) {
-    F = F * it->second->Fd;
+    F = it->second->Fd * F;
   }
 }
 
-- 
2.43.0


From 6619318375d89385b4633424ac64933a2de72a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:37 +0000
Subject: [PATCH 09/36] fix: quaternion integration used wrong powers in the
 matrix exponential

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 82bda2f..3bbc3ad 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -372,10 +372,11 @@ void MSF_Core<EKFState_T>::PropagateState(shared_ptr<EKFState_T>& state_old,
   Matrix4 MatExp;
   MatExp.setIdentity();
   OmegaMean *= 0.5 * dt;
+  Matrix4 OmegaPow = OmegaMean;
   for (int i = 1; i < 5; i++) {  // Can be made fourth order or less to save cycles.
     div *= i;
-    MatExp = MatExp + OmegaMean / div;
-    OmegaMean *= OmegaMean;
+    MatExp = MatExp + OmegaPow / div;
+    OmegaPow = OmegaPow * OmegaMean;
   }
 
   // First oder quat integration matrix.
-- 
2.43.0


From 739d5aa09e35022c931198eb3c52278a922864b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:03 +0000
Subject: [PATCH 10/36] fix: acceleration spikes were replaced by stale
 readings, even from before a re-initialization

---
 .../msf_core/implementation/msf_core_inl.h    | 24 ++++---------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 3bbc3ad..27bcee2 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -143,21 +143,9 @@ void MSF_Core<EKFState_T>::ProcessIMU(
   currentState->noise_acc = Vector3::Constant(usercalc_.GetParamNoiseAcc());
 
 
-  // Remove acc spikes (TODO (slynen): find a cleaner way to do this).
-  static Eigen::Matrix<double, 3, 1> last_am =
-      Eigen::Matrix<double, 3, 1>(0, 0, 0);
+  // Remove acc spikes, the last state holds the last good reading.
   if (currentState->a_m.norm() > 50)
-    currentState->a_m = last_am;
-  else {
-    // Try to get the state before the current time.
-    if (lastState->time == constants::INVALID_TIME) {
-      MSF_WARN_STREAM(
-          "Accelerometer readings had a spike, but no prior state was in the "
-          "buffer to take cleaner measurements from");
-      return;
-    }
-    last_am = lastState->a_m;
-  }
+    currentState->a_m = lastState->a_m;
   if (!predictionMade_) {
     if (lastState->time == constants::INVALID_TIME) {
       MSF_WARN_STREAM("Wanted to compare prediction time offset to last state, "
@@ -248,13 +236,9 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
   currentState->noise_gyr = Vector3::Constant(usercalc_.GetParamNoiseGyr());
   currentState->noise_acc = Vector3::Constant(usercalc_.GetParamNoiseAcc());
 
-  // Remove acc spikes (TODO (slynen): Find a cleaner way to do this).
-  static Eigen::Matrix<double, 3, 1> last_am =
-      Eigen::Matrix<double, 3, 1>(0, 0, 0);
+  // Remove acc spikes, the last state holds the last good reading.
   if (currentState->a_m.norm() > 50)
-    currentState->a_m = last_am;
-  else
-    last_am = currentState->a_m;
+    currentState->a_m = lastState->a_m;
 
   if (!predictionMade_) {
     if (fabs(currentState->time - lastState->time) > 5) {
-- 
2.43.0


From a70138e77c69f1a887b905a881effa6f42a2316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:03 +0000
Subject: [PATCH 11/36] fix: IMU data not newer than the last state corrupted
 the covariance

---
 .../msf_core/implementation/msf_core_inl.h    | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 27bcee2..a53fb28 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -125,7 +125,8 @@ void MSF_Core<EKFState_T>::ProcessIMU(
 
   // Check if this IMU message is really after the last one (caused by restarting
   // a bag file).
-  if (currentState->time - lastState->time < -0.01 && predictionMade_) {
+  if (currentState->time - lastState->time < -0.01
+      && (predictionMade_ || stateBuffer_.Size() > 1)) {
     initialized_ = false;
     predictionMade_ = false;
     MSF_ERROR_STREAM(
@@ -134,6 +135,13 @@ void MSF_Core<EKFState_T>::ProcessIMU(
         << " "<< "current-imu-time: "<< msf_core::timehuman(currentState->time));
     return;
   }
+  // A state inserted before the last one would never get a valid covariance.
+  if (currentState->time <= lastState->time
+      && (predictionMade_ || stateBuffer_.Size() > 1)) {
+    MSF_WARN_STREAM_THROTTLE(
+        2, "IMU message is not newer than the last one. Discarding.");
+    return;
+  }
 
   static int seq = 0;
   // Get inputs.
@@ -152,7 +160,8 @@ void MSF_Core<EKFState_T>::ProcessIMU(
       "but no prior state was in the buffer to take cleaner measurements from");
       return;
     }
-    if (fabs(currentState->time - lastState->time) > 0.1) {
+    if (fabs(currentState->time - lastState->time) > 0.1
+        || currentState->time <= lastState->time) {
       MSF_WARN_STREAM_THROTTLE(
           2, "large time-gap re-initializing to last state\n");
       typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
@@ -226,6 +235,22 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     return;  // Early abort.
   }
 
+  if (predictionMade_) {
+    if (msg_stamp - lastState->time < -0.01) {
+      initialized_ = false;
+      predictionMade_ = false;
+      MSF_ERROR_STREAM(
+          __FUNCTION__<<"latest state message was out of order by a too large "
+          "amount, resetting EKF");
+      return;
+    }
+    if (msg_stamp <= lastState->time) {
+      MSF_WARN_STREAM_THROTTLE(
+          2, "State message is not newer than the last one. Discarding.");
+      return;
+    }
+  }
+
   // Create a new state.
   shared_ptr<EKFState_T> currentState(new EKFState_T);
   currentState->time = msg_stamp;
-- 
2.43.0


From 84a2c34e473c8fe53e1100923b4a44cf176952d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:23 +0000
Subject: [PATCH 12/36] fix: delayed measurement within a millisecond of a
 later one counted the later one twice

---
 .../msf_core/implementation/msf_core_inl.h    | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index a53fb28..73889e7 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -663,6 +663,34 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   typename measurementBufferT::iterator_T it_meas_end = MeasurementBuffer_
       .GetIteratorEnd();
 
+  // The state to apply this measurement on might already contain the updates of
+  // later measurements, if they are closer than a millisecond. Go back to the
+  // prediction then, all of them are applied again below.
+  typename measurementBufferT::iterator_T it_later = it_meas;
+  ++it_later;
+  if (it_later != it_meas_end) {
+    typename StateBuffer_T::iterator_T it_state = stateBuffer_
+        .GetIteratorClosest(measurement->time);
+    if (it_state != stateBuffer_.GetIteratorBegin()
+        && fabs(it_state->second->time - measurement->time) <= 0.001
+        && it_state == stateBuffer_.GetIteratorClosest(it_later->second->time)) {
+      typename StateBuffer_T::iterator_T it_before = it_state;
+      --it_before;
+      PropagateState(it_before->second, it_state->second);
+      if (time_P_propagated > it_before->second->time) {
+        time_P_propagated = it_before->second->time;
+      }
+      while (it_meas != MeasurementBuffer_.GetIteratorBegin()) {
+        typename measurementBufferT::iterator_T it_earlier = it_meas;
+        --it_earlier;
+        if (stateBuffer_.GetIteratorClosest(it_earlier->second->time)
+            != it_state)
+          break;
+        it_meas = it_earlier;
+      }
+    }
+  }
+
   // No propagation if no update is applied.
   typename StateBuffer_T::iterator_T it_curr = stateBuffer_.GetIteratorEnd();
 
-- 
2.43.0


From dc50c7ae1c6580d5dcad9da4e1bdef88102a3ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 13/36] fix: world-seen-from-sensor poses were only inverted
 without fixed covariance

---
 .../include/msf_updates/pose_sensor_handler/pose_measurement.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index a64e726..6ccae93 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -93,6 +93,7 @@ struct PoseMeasurement : public PoseMeasurementBase {
       R_.block<3, 3>(0, 3) = Eigen::Matrix<double, 3, 3>::Zero();
       R_.block<3, 3>(3, 0) = Eigen::Matrix<double, 3, 3>::Zero();
       R_(6, 6) = 1e-6;  // q_wv yaw-measurement noise
+    }
 
       /*************************************************************************************/
       // Use this if your pose sensor is ethzasl_ptam (www.ros.org/wiki/ethzasl_ptam)
@@ -109,7 +110,6 @@ struct PoseMeasurement : public PoseMeasurementBase {
         R_.block<6, 6>(0, 0) = C_cov.transpose() * R_.block<6, 6>(0, 0) * C_cov;
       }
       /*************************************************************************************/
-    }
   }
  public:
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
-- 
2.43.0


From b055c6d5043effc293e352ee8df247053bd5a22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 14/36] fix: sensitivity of the pose to the world-vision offset
 ignored rotation and scale

---
 .../msf_updates/pose_sensor_handler/pose_measurement.h       | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 6ccae93..2089175 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -246,13 +246,10 @@ struct PoseMeasurement : public PoseMeasurementBase {
             Eigen::Matrix<double, 3, 3>::Zero() :
             (C_wv * C_q * state.Get<StateLIdx>()(0)).eval();  //p_ic
 
-
-    // TODO (slynen): Check scale commenting
     H.block<3, 3>(0, kIdxstartcorr_pwv) =
         driftwvposfix ?
             Eigen::Matrix<double, 3, 3>::Zero() :
-            (-Eigen::Matrix<double, 3, 3>::Identity()
-            /* * state.Get<StateLIdx>()(0)*/).eval();  //p_wv
+            (-C_wv * state.Get<StateLIdx>()(0)).eval();  //p_wv
 
     // Attitude.
     H.block<3, 3>(3, kIdxstartcorr_q) = C_ci;  // q
-- 
2.43.0


From f8063f31a6d2c38746cfaa7aecf4610a4bc39d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 15/36] fix: disabled yaw row of the pose residual spoiled the
 outlier rejection

---
 .../pose_sensor_handler/pose_measurement.h    | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 2089175..39d16a6 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -311,11 +311,9 @@ struct PoseMeasurement : public PoseMeasurementBase {
           * state.Get<StateDefinition_T::q>()
           * state.Get<StateQicIdx>()).conjugate() * z_q_;
       r_old.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
-      // Vision world yaw drift.
-      q_err = state.Get<StateQwvIdx>();
-
-      r_old(6, 0) = -2 * (q_err.w() * q_err.z() + q_err.x() * q_err.y())
-          / (1 - 2 * (q_err.y() * q_err.y() + q_err.z() * q_err.z()));
+      // Vision world yaw drift is not used (see CalculateH), so the residual must
+      // not contribute to the outlier rejection either.
+      r_old(6, 0) = 0;
 
       if (!CheckForNumeric(r_old, "r_old")) {
         MSF_ERROR_STREAM("r_old: "<<r_old);
@@ -375,7 +373,7 @@ struct PoseMeasurement : public PoseMeasurementBase {
       Eigen::Matrix<double, nMeasurements,
           msf_core::MSF_Core<EKFState_T>::nErrorStatesAtCompileTime> H_new,
           H_old;
-      Eigen::Matrix<double, nMeasurements, 1> r_new, r_old;
+      Eigen::Matrix<double, nMeasurements, 1> r_new;
 
       CalculateH(state_nonconst_old, H_old);
 
@@ -424,14 +422,11 @@ struct PoseMeasurement : public PoseMeasurementBase {
       q_err = diffprobatt.conjugate() * diffmeasatt;
 
       r_new.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
-      // Vision world yaw drift.
-      q_err = state_new.Get<StateQwvIdx>();
-
-      r_new(6, 0) = -2 * (q_err.w() * q_err.z() + q_err.x() * q_err.y())
-          / (1 - 2 * (q_err.y() * q_err.y() + q_err.z() * q_err.z()));
+      // Vision world yaw drift is not used (see CalculateH).
+      r_new(6, 0) = 0;
 
-      if (!CheckForNumeric(r_old, "r_old")) {
-        MSF_ERROR_STREAM("r_old: "<<r_old);
+      if (!CheckForNumeric(r_new, "r_new")) {
+        MSF_ERROR_STREAM("r_new: "<<r_new);
         MSF_WARN_STREAM(
             "state: "<<const_cast<EKFState_T&>(state_new). ToEigenVector().transpose());
       }
-- 
2.43.0


From 9a9673c81a7a4e0753d865209c93f56327fb9945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 16/36] fix: relative pose attitude residual pointed the wrong
 way

---
 .../pose_sensor_handler/pose_measurement.h    | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 39d16a6..2aaf978 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -379,6 +379,10 @@ struct PoseMeasurement : public PoseMeasurementBase {
 
       H_old *= -1;
 
+      enum {
+        kErrorStates = msf_core::MSF_Core<EKFState_T>::nErrorStatesAtCompileTime
+      };
+
       CalculateH(state_nonconst_new, H_new);
 
       //TODO (slynen): check that both measurements have the same states fixed!
@@ -409,14 +413,18 @@ struct PoseMeasurement : public PoseMeasurementBase {
       r_new.block<3, 1>(0, 0) = diffmeaspos - diffprobpos;
 
       // Attitude:
-      Eigen::Quaternion<double> diffprobatt = (state_new.Get<StateQwvIdx>()
-          * state_new.Get<StateDefinition_T::q>()
-          * state_new.Get<StateQicIdx>()).conjugate()
-          * (state_old.Get<StateQwvIdx>()
-              * state_old.Get<StateDefinition_T::q>()
-              * state_old.Get<StateQicIdx>());
-
-      Eigen::Quaternion<double> diffmeasatt = z_q_.conjugate() * prevmeas->z_q_;
+      Eigen::Quaternion<double> diffprobatt = (state_old.Get<StateQwvIdx>()
+          * state_old.Get<StateDefinition_T::q>()
+          * state_old.Get<StateQicIdx>()).conjugate()
+          * (state_new.Get<StateQwvIdx>()
+              * state_new.Get<StateDefinition_T::q>()
+              * state_new.Get<StateQicIdx>());
+
+      Eigen::Quaternion<double> diffmeasatt = prevmeas->z_q_.conjugate() * z_q_;
+
+      // The residual is expressed in the new sensor frame.
+      H_old.block<3, kErrorStates>(3, 0) = (diffprobatt.conjugate()
+          .toRotationMatrix() * H_old.block<3, kErrorStates>(3, 0)).eval();
 
       Eigen::Quaternion<double> q_err;
       q_err = diffprobatt.conjugate() * diffmeasatt;
-- 
2.43.0


From d5b0ee962fcaafb5fb39217fc5004265e629bc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:18 +0000
Subject: [PATCH 17/36] fix: pressure handler read uninitialized values before
 the first reading

---
 .../implementation/pressure_sensorhandler.hpp                 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
index 6077b4d..70c35b2 100644
--- a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
@@ -46,6 +46,8 @@ PressureSensorHandler::PressureSensorHandler(
       enable_tcp_no_delay ? ros::TransportHints().tcpNoDelay()
                           : ros::TransportHints());
 
+  z_p_.setZero();
+  z_average_p.setZero();
   memset(heightbuff, 0, sizeof(double) * heightbuffsize);
 
 }
@@ -79,7 +81,7 @@ void PressureSensorHandler::MeasurementCallback(
   z_p_ = meas->z_p_;  // Store this for the init procedure.
 
   // Make averaged measurement.
-  memcpy(heightbuff, heightbuff + 1, sizeof(double) * (heightbuffsize - 1));
+  memmove(heightbuff, heightbuff + 1, sizeof(double) * (heightbuffsize - 1));
   heightbuff[heightbuffsize - 1] = meas->z_p_(0);
   double sum = 0;
   for (int k = 0; k < heightbuffsize; ++k)
-- 
2.43.0


From b9dbfda2d6663c93311c3f0ed54d8b5ad6984f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:43 +0000
Subject: [PATCH 18/36] fix: pose-pressure filter ignored the pose delay and
 the p_wv noise parameter

---
 .../pose_pressure_sensormanager.h                 | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 2a18ac1..923350c 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -86,6 +86,12 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
    */
   virtual void Config(Config_T &config, uint32_t level) {
     config_ = config;
+    // Pass the noise values to the sensor handlers.
+    pose_handler_->SetNoises(config.pose_noise_meas_p,
+                             config.pose_noise_meas_q);
+    pose_handler_->SetDelay(config.pose_delay);
+    pressure_handler_->SetNoises(config.press_noise_meas_p);
+
     // Init call with "init filter" checkbox.
     if ((level & msf_updates::SinglePoseSensor_INIT_FILTER)
         && config.core_init_filter == true) {
@@ -105,11 +111,6 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
       Init(scale);
       config.core_set_height = false;
     }
-
-    // Pass the noise values to the sensor handlers.
-    pose_handler_->SetNoises(config.pose_noise_meas_p,
-                             config.pose_noise_meas_q);
-    pressure_handler_->SetNoises(config.press_noise_meas_p);
   }
 
   void Init(double scale) const {
@@ -208,6 +209,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
   virtual void CalculateQAuxiliaryStates(EKFState_T& state, double dt) const {
     const msf_core::Vector3 nqwvv = msf_core::Vector3::Constant(
         config_.pose_noise_q_wv);
+    const msf_core::Vector3 npwvv = msf_core::Vector3::Constant(
+        config_.pose_noise_p_wv);
     const msf_core::Vector3 nqicv = msf_core::Vector3::Constant(
         config_.pose_noise_q_ic);
     const msf_core::Vector3 npicv = msf_core::Vector3::Constant(
@@ -223,6 +226,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
         .asDiagonal();
     state.GetQBlock<StateDefinition_T::q_wv>() =
         (dt * nqwvv.cwiseProduct(nqwvv)).asDiagonal();
+    state.GetQBlock<StateDefinition_T::p_wv>() =
+        (dt * npwvv.cwiseProduct(npwvv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::q_ic>() =
         (dt * nqicv.cwiseProduct(nqicv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::p_ic>() =
-- 
2.43.0


From 651ce053034c7f823bfa60c653568b6eaad0b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:43 +0000
Subject: [PATCH 19/36] fix: initial pressure bias ignored the lever arm of the
 pose sensor

---
 .../src/pose_pressure_msf/pose_pressure_sensormanager.h   | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 923350c..2167c13 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -135,11 +135,7 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
     p_vc = pose_handler_->GetPositionMeasurement();
     q_vc = pose_handler_->GetAttitudeMeasurement();
 
-    b_p
-        << pose_handler_->GetPositionMeasurement()(2) / scale
-            - pressure_handler_->GetPressureMeasurement()(0);  /// Pressure drift state
-
-            // Check if we have already input from the measurement sensor.
+    // Check if we have already input from the measurement sensor.
     if (!pose_handler_->ReceivedFirstMeasurement())
       MSF_WARN_STREAM(
           "No measurements received yet to initialize position and attitude - "
@@ -166,6 +162,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
     p = q_wv.conjugate().toRotationMatrix() * p_vc / scale
         - q.toRotationMatrix() * p_ic;
 
+    b_p << p(2) - pressure_handler_->GetPressureMeasurement()(0);  /// Pressure drift state
+
     a_m = q.inverse() * g;			/// Initial acceleration.
 
     // Prepare init "measurement".
-- 
2.43.0


From d4337b7e1b57fdd032ca0f7cb3267a3570497a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:43 +0000
Subject: [PATCH 20/36] fix: position-pose filter ignored the p_ip noise
 parameter

---
 .../src/position_pose_msf/position_pose_sensormanager.h       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
index e285368..bbfe165 100644
--- a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
+++ b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
@@ -257,6 +257,8 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
         config_.pose_noise_p_ic);
     const msf_core::Vector1 n_L = msf_core::Vector1::Constant(
         config_.pose_noise_scale);
+    const msf_core::Vector3 npipv = msf_core::Vector3::Constant(
+        config_.position_noise_p_ip);
 
     // Compute the blockwise Q values and store them with the states,
     // these then get copied by the core to the correct places in Qd.
@@ -270,6 +272,8 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
         (dt * nqicv.cwiseProduct(nqicv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::p_ic>() =
         (dt * npicv.cwiseProduct(npicv)).asDiagonal();
+    state.GetQBlock<StateDefinition_T::p_ip>() =
+        (dt * npipv.cwiseProduct(npipv)).asDiagonal();
   }
 
   virtual void SetStateCovariance(
-- 
2.43.0


From 371abda0c9b19f092e88bea5f00d016208533442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:07 +0000
Subject: [PATCH 21/36] fix: stopping a stopped timer recorded an interval,
 maximum of negative samples was wrong

---
 msf_timing/include/msf_timing/Timer.h | 2 +-
 msf_timing/src/Timer.cc               | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/msf_timing/include/msf_timing/Timer.h b/msf_timing/include/msf_timing/Timer.h
index 85049b9..e7e7ec1 100755
--- a/msf_timing/include/msf_timing/Timer.h
+++ b/msf_timing/include/msf_timing/Timer.h
@@ -38,7 +38,7 @@ class Accumulator {
         window_sum_(0),
         sum_(0),
         min_(std::numeric_limits < T > ::max()),
-        max_(std::numeric_limits < T > ::min()) {
+        max_(std::numeric_limits < T > ::lowest()) {
   }
 
   void Add(T sample) {
diff --git a/msf_timing/src/Timer.cc b/msf_timing/src/Timer.cc
index 7482420..52a483e 100755
--- a/msf_timing/src/Timer.cc
+++ b/msf_timing/src/Timer.cc
@@ -96,6 +96,8 @@ void Timer::Start() {
 }
 
 void Timer::Stop() {
+  if (!IsTiming())
+    return;
   std::chrono::time_point < std::chrono::system_clock > now =
       std::chrono::system_clock::now();
   double dt = static_cast<double>(std::chrono::duration_cast
-- 
2.43.0


From d6227db8337f7c7ef025175dda06eb08a996b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:07 +0000
Subject: [PATCH 22/36] fix: external state messages were read without checking
 their length

---
 msf_core/include/msf_core/msf_IMUHandler_ROS.h   | 5 +++++
 msf_core/include/msf_core/msf_sensormanagerROS.h | 1 +
 2 files changed, 6 insertions(+)

diff --git a/msf_core/include/msf_core/msf_IMUHandler_ROS.h b/msf_core/include/msf_core/msf_IMUHandler_ROS.h
index eb27c89..4c58c63 100644
--- a/msf_core/include/msf_core/msf_IMUHandler_ROS.h
+++ b/msf_core/include/msf_core/msf_IMUHandler_ROS.h
@@ -61,6 +61,11 @@ class IMUHandler_ROS : public IMUHandler<EKFState_T> {
   virtual ~IMUHandler_ROS() { }
 
   void StateCallback(const sensor_fusion_comm::ExtEkfConstPtr & msg) {
+    if (msg->state.size() < HLI_EKF_STATE_SIZE) {
+      MSF_WARN_STREAM_THROTTLE(2, "External state message is too short. "
+          "Discarding.");
+      return;
+    }
     static_cast<MSF_SensorManagerROS<EKFState_T>&>(this->manager_)
         .SetHLControllerStateBuffer(*msg);
 
diff --git a/msf_core/include/msf_core/msf_sensormanagerROS.h b/msf_core/include/msf_core/msf_sensormanagerROS.h
index 5a23374..8a5fb15 100644
--- a/msf_core/include/msf_core/msf_sensormanagerROS.h
+++ b/msf_core/include/msf_core/msf_sensormanagerROS.h
@@ -114,6 +114,7 @@ struct MSF_SensorManagerROS : public msf_core::MSF_SensorManager<EKFState_T> {
         "cov_core_aux", 10);
 
     hl_state_buf_.state.resize(HLI_EKF_STATE_SIZE, 0);
+    hl_state_buf_.state[6] = 1;  // Unit quaternion.
 
     // Print published/subscribed topics.
     ros::V_string topics;
-- 
2.43.0


From 2d368a795083b68db3ee59e4c7d699691b594d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:07 +0000
Subject: [PATCH 23/36] fix: finiteness check skipped dynamically sized
 matrices

---
 msf_core/include/msf_core/eigen_utils.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/msf_core/include/msf_core/eigen_utils.h b/msf_core/include/msf_core/eigen_utils.h
index 5c343ca..7732ff7 100644
--- a/msf_core/include/msf_core/eigen_utils.h
+++ b/msf_core/include/msf_core/eigen_utils.h
@@ -113,13 +113,8 @@ Eigen::Quaternion<typename Derived::Scalar> QuaternionFromSmallAngle(
 template<class D>
 bool CheckForNumeric(const Eigen::MatrixBase<D> & mat,
                      const std::string & info) {
-  enum {
-    rows = Eigen::MatrixBase < D > ::RowsAtCompileTime,
-    cols = Eigen::MatrixBase < D > ::ColsAtCompileTime
-  };
-
-  for (int i = 0; i < rows; ++i) {
-    for (int j = 0; j < cols; ++j) {
+  for (int i = 0; i < mat.rows(); ++i) {
+    for (int j = 0; j < mat.cols(); ++j) {
       if (std::isnan(mat(i, j))) {
         std::cerr << "=== ERROR ===  " << info << ": NAN at index [" << i << ","
             << j << "]" << std::endl;
-- 
2.43.0


From 3742f7b9b4cce3bd4e619670d20425f20f97795f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:38 +0000
Subject: [PATCH 24/36] fix: GPS reference flag was shared by all position
 sensors

---
 .../implementation/position_sensorhandler.hpp            | 9 +++++----
 .../position_sensor_handler/position_sensorhandler.h     | 1 +
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp b/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
index 1b08ff1..c48b4d4 100644
--- a/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
@@ -30,7 +30,8 @@ PositionSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::PositionSensorHandler(
     : SensorHandler<msf_updates::EKFState>(meas, topic_namespace,
                                            parameternamespace),
       n_zp_(1e-6),
-      delay_(0) {
+      delay_(0),
+      gps_reference_initialized_(false) {
   ros::NodeHandle pnh("~/position_sensor");
   pnh.param("position_use_fixed_covariance", use_fixed_covariance_, false);
   bool enable_tcp_no_delay;
@@ -190,14 +191,14 @@ void PositionSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::MeasurementCallback(
           << " ***");
 
   // Fixed covariance will be set in measurement class -> MakeFromSensorReadingImpl.
-  static bool referenceinit = false;  //TODO (slynen): Dynreconf reset reference.
-  if (!referenceinit) {
+  //TODO (slynen): Dynreconf reset reference.
+  if (!gps_reference_initialized_) {
     gpsConversion_.InitReference(msg->latitude, msg->longitude, msg->altitude);
     MSF_WARN_STREAM(
         "Initialized GPS reference of topic: " << this->topic_namespace_ << "/"
             << subNavSatFix_.getTopic() << " to lat/lon/alt: [" << msg->latitude
             << ", " << msg->longitude << ", " << msg->altitude << "]");
-    referenceinit = true;
+    gps_reference_initialized_ = true;
   }
 
   msf_core::Vector3 ecef = gpsConversion_.WGS84ToECEF(msg->latitude,
diff --git a/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h b/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
index 8ba1970..dda3e1f 100644
--- a/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
+++ b/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
@@ -42,6 +42,7 @@ class PositionSensorHandler : public msf_core::SensorHandler<
   ros::Subscriber subTransformStamped_;
   ros::Subscriber subNavSatFix_;
   msf_core::GPSConversion gpsConversion_;
+  bool gps_reference_initialized_;  ///< Has this sensor received its first fix?
 
   bool use_fixed_covariance_;  ///< Use fixed covariance set by dynamic reconfigure.
   bool provides_absolute_measurements_;  ///< Does this sensor measure relative or absolute values.
-- 
2.43.0


From 878a5b502881cc9f2cc1d0d08fc09e1946fb6d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:38 +0000
Subject: [PATCH 25/36] fix: spherical position filter never received IMU data

---
 msf_updates/src/spherical_msf/spherical_sensormanager.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/msf_updates/src/spherical_msf/spherical_sensormanager.h b/msf_updates/src/spherical_msf/spherical_sensormanager.h
index 5e1c586..6446dbb 100644
--- a/msf_updates/src/spherical_msf/spherical_sensormanager.h
+++ b/msf_updates/src/spherical_msf/spherical_sensormanager.h
@@ -21,6 +21,7 @@
 
 #include <msf_core/msf_core.h>
 #include <msf_core/msf_sensormanagerROS.h>
+#include <msf_core/msf_IMUHandler_ROS.h>
 #include "msf_statedef.hpp"
 #include <msf_updates/spherical_position_sensor/spherical_sensorhandler.h>
 #include <msf_updates/spherical_position_sensor/spherical_measurement.h>
@@ -45,6 +46,9 @@ class SensorManager : public msf_core::MSF_SensorManagerROS<
 
   SensorManager(
       ros::NodeHandle pnh = ros::NodeHandle("~/spherical_position_sensor")) {
+    imu_handler_.reset(
+        new msf_core::IMUHandler_ROS<msf_updates::EKFState>(*this, "msf_core",
+                                                            "imu_handler"));
     angle_handler_.reset(
         new AngleSensorHandler_T(*this, "", "spherical_position_sensor"));
     AddHandler(angle_handler_);
@@ -65,6 +69,7 @@ class SensorManager : public msf_core::MSF_SensorManagerROS<
   }
 
  private:
+  shared_ptr<msf_core::IMUHandler_ROS<msf_updates::EKFState> > imu_handler_;
   boost::shared_ptr<AngleSensorHandler_T> angle_handler_;
   boost::shared_ptr<DistanceSensorHandler_T> distance_handler_;
 
-- 
2.43.0


From 9ad2ce64506c998af9b17375987c4107c4f49923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:39 +0000
Subject: [PATCH 26/36] fix: sensitivity of angle and distance readings was
 evaluated at the wrong point

---
 .../spherical_measurement.h                   | 159 ++----------------
 1 file changed, 16 insertions(+), 143 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index 3d127f5..282f0be 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -122,8 +122,10 @@ struct AngleMeasurement : public AngleMeasurementBase {
 
     Eigen::Matrix<double, 3, 3> C_q = state.Get<StateDefinition_T::q>()
         .conjugate().toRotationMatrix();
-    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>();
     Eigen::Matrix<double, 3, 1> p_ip = state.Get<StateDefinition_T::p_ip>();
+    // Position of the prism.
+    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>()
+        + C_q.transpose() * p_ip;
     Eigen::Matrix<double, 2, 3> dz_dp;
     dz_dp(0, 0) = (p_(0, 0) * p_(2, 0) * 1.0
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0)))
@@ -136,109 +138,11 @@ struct AngleMeasurement : public AngleMeasurementBase {
     dz_dp(1, 0) = -p_(1, 0) / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0));
     dz_dp(1, 1) = p_(0, 0) / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0));
     dz_dp(1, 2) = 0;
-    Eigen::Matrix<double, 2, 3> dz_dq;
-    dz_dq(0, 0) = 1.0
-        / sqrt(
-            1.0
-                / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0)
-                    + p_(2, 0) * p_(2, 0))) * 1.0
-        / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0)) * 1.0
-        / pow(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0),
-              3.0 / 2.0)
-        * (C_q(2, 1) * p_ip(2, 0) * (p_(0, 0) * p_(0, 0))
-            - C_q(2, 2) * p_ip(1, 0) * (p_(0, 0) * p_(0, 0))
-            + C_q(2, 1) * p_ip(2, 0) * (p_(1, 0) * p_(1, 0))
-            - C_q(2, 2) * p_ip(1, 0) * (p_(1, 0) * p_(1, 0))
-            - C_q(0, 1) * p_ip(2, 0) * p_(0, 0) * p_(2, 0)
-            + C_q(0, 2) * p_ip(1, 0) * p_(0, 0) * p_(2, 0)
-            - C_q(1, 1) * p_ip(2, 0) * p_(1, 0) * p_(2, 0)
-            + C_q(1, 2) * p_ip(1, 0) * p_(1, 0) * p_(2, 0));
-    dz_dq(0, 1) = -1.0
-        / sqrt(
-            -(p_(2, 0) * p_(2, 0))
-                / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0)
-                    + p_(2, 0) * p_(2, 0)) + 1.0) * 1.0
-        / pow(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0),
-              3.0 / 2.0)
-        * (C_q(2, 0) * p_ip(2, 0) * (p_(0, 0) * p_(0, 0))
-            - C_q(2, 2) * p_ip(0, 0) * (p_(0, 0) * p_(0, 0))
-            + C_q(2, 0) * p_ip(2, 0) * (p_(1, 0) * p_(1, 0))
-            - C_q(2, 2) * p_ip(0, 0) * (p_(1, 0) * p_(1, 0))
-            - C_q(0, 0) * p_ip(2, 0) * p_(0, 0) * p_(2, 0)
-            + C_q(0, 2) * p_ip(0, 0) * p_(0, 0) * p_(2, 0)
-            - C_q(1, 0) * p_ip(2, 0) * p_(1, 0) * p_(2, 0)
-            + C_q(1, 2) * p_ip(0, 0) * p_(1, 0) * p_(2, 0));
-    dz_dq(0, 2) = 1.0
-        / sqrt(
-            1.0
-                / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0)
-                    + p_(2, 0) * p_(2, 0))) * 1.0
-        / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0)) * 1.0
-        / pow(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0),
-              3.0 / 2.0)
-        * (C_q(2, 0) * p_ip(1, 0) * (p_(0, 0) * p_(0, 0))
-            - C_q(2, 1) * p_ip(0, 0) * (p_(0, 0) * p_(0, 0))
-            + C_q(2, 0) * p_ip(1, 0) * (p_(1, 0) * p_(1, 0))
-            - C_q(2, 1) * p_ip(0, 0) * (p_(1, 0) * p_(1, 0))
-            - C_q(0, 0) * p_ip(1, 0) * p_(0, 0) * p_(2, 0)
-            + C_q(0, 1) * p_ip(0, 0) * p_(0, 0) * p_(2, 0)
-            - C_q(1, 0) * p_ip(1, 0) * p_(1, 0) * p_(2, 0)
-            + C_q(1, 1) * p_ip(0, 0) * p_(1, 0) * p_(2, 0));
-    dz_dq(1, 0) = (p_(1, 0) * (C_q(0, 1) * p_ip(2, 0) - C_q(0, 2) * p_ip(1, 0))
-        - p_(0, 0) * (C_q(1, 1) * p_ip(2, 0) - C_q(1, 2) * p_ip(1, 0)))
-        / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0));
-    dz_dq(1, 1) = -(p_(1, 0) * (C_q(0, 0) * p_ip(2, 0) - C_q(0, 2) * p_ip(0, 0))
-        - p_(0, 0) * (C_q(1, 0) * p_ip(2, 0) - C_q(1, 2) * p_ip(0, 0)))
-        / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0));
-    dz_dq(1, 2) = (p_(1, 0) * (C_q(0, 0) * p_ip(1, 0) - C_q(0, 1) * p_ip(0, 0))
-        - p_(0, 0) * (C_q(1, 0) * p_ip(1, 0) - C_q(1, 1) * p_ip(0, 0)))
-        / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0));
-    Eigen::Matrix<double, 2, 3> dz_dp_ip;
-    dz_dp_ip(0, 0) =
-        -1.0
-            / sqrt(
-                -(p_(2, 0) * p_(2, 0))
-                    / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0)
-                        + p_(2, 0) * p_(2, 0)) + 1.0) * 1.0
-            / pow(
-                p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0),
-                3.0 / 2.0)
-            * (C_q(2, 0) * (p_(0, 0) * p_(0, 0))
-                + C_q(2, 0) * (p_(1, 0) * p_(1, 0))
-                - C_q(0, 0) * p_(0, 0) * p_(2, 0)
-                - C_q(1, 0) * p_(1, 0) * p_(2, 0));
-    dz_dp_ip(0, 1) =
-        -1.0
-            / sqrt(
-                -(p_(2, 0) * p_(2, 0))
-                    / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0)
-                        + p_(2, 0) * p_(2, 0)) + 1.0) * 1.0
-            / pow(
-                p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0),
-                3.0 / 2.0)
-            * (C_q(2, 1) * (p_(0, 0) * p_(0, 0))
-                + C_q(2, 1) * (p_(1, 0) * p_(1, 0))
-                - C_q(0, 1) * p_(0, 0) * p_(2, 0)
-                - C_q(1, 1) * p_(1, 0) * p_(2, 0));
-    dz_dp_ip(0, 2) =
-        -1.0
-            / sqrt(
-                -(p_(2, 0) * p_(2, 0))
-                    / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0)
-                        + p_(2, 0) * p_(2, 0)) + 1.0) * 1.0
-            / pow(
-                p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0),
-                3.0 / 2.0)
-            * (C_q(2, 2) * (p_(0, 0) * p_(0, 0))
-                + C_q(2, 2) * (p_(1, 0) * p_(1, 0))
-                - C_q(0, 2) * p_(0, 0) * p_(2, 0)
-                - C_q(1, 2) * p_(1, 0) * p_(2, 0));
-    dz_dp_ip(1, 0) = -(C_q(0, 0) * p_(1, 0) - C_q(1, 0) * p_(0, 0))
-        / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0));
-    dz_dp_ip(1, 1) = -(C_q(0, 1) * p_(1, 0) - C_q(1, 1) * p_(0, 0))
-        / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0));
-    dz_dp_ip(1, 2) = -(C_q(0, 2) * p_(1, 0) - C_q(1, 2) * p_(0, 0))
-        / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0));
+    // Attitude and lever arm move the prism.
+    Eigen::Matrix<double, 2, 3> dz_dq = -dz_dp * C_q.transpose() * Skew(p_ip);
+    Eigen::Matrix<double, 2, 3> dz_dp_ip = dz_dp * C_q.transpose();
+    if (fixed_p_pos_imu)
+      dz_dp_ip.setZero();
     H.block<2, 3>(0, idxstartcorr_p_) = dz_dp;
     H.block<2, 3>(0, idxstartcorr_q_) = dz_dq;
     H.block<2, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
@@ -410,8 +314,10 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
     if (fixed_p_pos_imu)
       state_in->ClearCrossCov<StateDefinition_T::p_ip>();
 
-    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>();
     Eigen::Matrix<double, 3, 1> p_ip = state.Get<StateDefinition_T::p_ip>();
+    // Position of the prism.
+    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>()
+        + C_q.transpose() * p_ip;
     Eigen::Matrix<double, 1, 3> dz_dp;
     dz_dp(0, 0) = p_(0, 0) * 1.0
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
@@ -419,44 +325,11 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
     dz_dp(0, 2) = p_(2, 0) * 1.0
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
-    Eigen::Matrix<double, 1, 3> dz_dq;
-    dz_dq(0, 0) = (p_(0, 0)
-        * (C_q(0, 1) * p_ip(2, 0) * 2.0 - C_q(0, 2) * p_ip(1, 0) * 2.0)
-        + p_(1, 0)
-            * (C_q(1, 1) * p_ip(2, 0) * 2.0 - C_q(1, 2) * p_ip(1, 0) * 2.0)
-        + p_(2, 0)
-            * (C_q(2, 1) * p_ip(2, 0) * 2.0 - C_q(2, 2) * p_ip(1, 0) * 2.0))
-        * 1.0
-        / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0))
-        * (-1.0 / 2.0);
-    dz_dq(0, 1) = (p_(0, 0)
-        * (C_q(0, 0) * p_ip(2, 0) * 2.0 - C_q(0, 2) * p_ip(0, 0) * 2.0)
-        + p_(1, 0)
-            * (C_q(1, 0) * p_ip(2, 0) * 2.0 - C_q(1, 2) * p_ip(0, 0) * 2.0)
-        + p_(2, 0)
-            * (C_q(2, 0) * p_ip(2, 0) * 2.0 - C_q(2, 2) * p_ip(0, 0) * 2.0))
-        * 1.0
-        / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0))
-        * (1.0 / 2.0);
-    dz_dq(0, 2) = (p_(0, 0)
-        * (C_q(0, 0) * p_ip(1, 0) * 2.0 - C_q(0, 1) * p_ip(0, 0) * 2.0)
-        + p_(1, 0)
-            * (C_q(1, 0) * p_ip(1, 0) * 2.0 - C_q(1, 1) * p_ip(0, 0) * 2.0)
-        + p_(2, 0)
-            * (C_q(2, 0) * p_ip(1, 0) * 2.0 - C_q(2, 1) * p_ip(0, 0) * 2.0))
-        * 1.0
-        / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0))
-        * (-1.0 / 2.0);
-    Eigen::Matrix<double, 1, 3> dz_dp_ip;
-    dz_dp_ip(0, 0) = (C_q(0, 0) * p_(0, 0) + C_q(1, 0) * p_(1, 0)
-        + C_q(2, 0) * p_(2, 0)) * 1.0
-        / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
-    dz_dp_ip(0, 1) = (C_q(0, 1) * p_(0, 0) + C_q(1, 1) * p_(1, 0)
-        + C_q(2, 1) * p_(2, 0)) * 1.0
-        / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
-    dz_dp_ip(0, 2) = (C_q(0, 2) * p_(0, 0) + C_q(1, 2) * p_(1, 0)
-        + C_q(2, 2) * p_(2, 0)) * 1.0
-        / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
+    // Attitude and lever arm move the prism.
+    Eigen::Matrix<double, 1, 3> dz_dq = -dz_dp * C_q.transpose() * Skew(p_ip);
+    Eigen::Matrix<double, 1, 3> dz_dp_ip = dz_dp * C_q.transpose();
+    if (fixed_p_pos_imu)
+      dz_dp_ip.setZero();
     H.block<1, 3>(0, idxstartcorr_p_) = dz_dp;
     H.block<1, 3>(0, idxstartcorr_q_) = dz_dq;
     H.block<1, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
-- 
2.43.0


From e8bf748c1ce905c1a3914d7ac640c357693d5618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:39 +0000
Subject: [PATCH 27/36] fix: azimuth of points on the negative x axis was wrong

---
 .../spherical_position_sensor/spherical_measurement.h    | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index 282f0be..c938cca 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -176,14 +176,7 @@ struct AngleMeasurement : public AngleMeasurementBase {
           z_carth(0, 0) * z_carth(0, 0) + z_carth(1, 0) * z_carth(1, 0)
               + z_carth(2, 0) * z_carth(2, 0));
       double theta_old = acos(z_carth(2, 0) / radius_old);
-      double phi_old = atan(z_carth(1, 0) / z_carth(0, 0));
-      // Handle all exeptions that occur when transforming in spherical coordinates.
-      if (z_carth(0, 0) < 0 && z_carth(1, 0) < 0) {
-        phi_old -= M_PI;
-      }
-      if (z_carth(0, 0) < 0 && z_carth(1, 0) > 0) {
-        phi_old += M_PI;
-      }
+      double phi_old = atan2(z_carth(1, 0), z_carth(0, 0));
 
       msf_core::Vector2 z_spherical;
       z_spherical << theta_old, phi_old;
-- 
2.43.0


From 165ed24c3df6a3f985e41071f32db8c32981f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:41 +0000
Subject: [PATCH 28/36] fix: symmetrise the covariance without aliasing

P = 0.5 * (P + P.transpose()) is evaluated in place, so the upper half is
overwritten before it is read for the lower half and the initial covariance
came out asymmetric.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h    | 2 +-
 .../include/msf_core/implementation/msf_measurement_inl.h  | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 73889e7..a2e264a 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -85,7 +85,7 @@ void MSF_Core<EKFState_T>::SetPCore(
             -0.0002, -0.0002, -0.0004, -0.0001, 0.0003, 0.0001, -0.0001, -0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0010, 0.0000,
             -0.0000, 0.0000, -0.0001, 0.0000, 0.0000, -0.0001, -0.0000, -0.0000, -0.0000, 0.0000, 0.0000, -0.0000, 0.0000, 0.0000, 0.0001;
 
-  P_core = 0.5 * (P_core + P_core.transpose());
+  P_core = (0.5 * (P_core + P_core.transpose())).eval();
   P.template block<coreErrorStates, coreErrorStates>(0, 0) = P_core;
 }
 
diff --git a/msf_core/include/msf_core/implementation/msf_measurement_inl.h b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
index 70bf1b0..e432832 100644
--- a/msf_core/include/msf_core/implementation/msf_measurement_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
@@ -74,7 +74,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
 
   // Make sure P stays symmetric.
-  P = 0.5 * (P + P.transpose());
+  P = (0.5 * (P + P.transpose())).eval();
 
   core.ApplyCorrection(state, correction_);
 }
@@ -118,7 +118,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
 
   // Make sure P stays symmetric.
-  P = 0.5 * (P + P.transpose());
+  P = (0.5 * (P + P.transpose())).eval();
 
   core.ApplyCorrection(state, correction_);
 }
@@ -192,7 +192,8 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrectionRelative(
 
   // Make sure P stays symmetric.
   // TODO (slynen): EV, set Evalues<eps to zero, then reconstruct.
-  state_new->P = 0.5 * (state_new->P + state_new->P.transpose());
+  state_new->P =
+      (0.5 * (state_new->P + state_new->P.transpose())).eval();
 
   core.ApplyCorrection(state_new, correction_);
 }
-- 
2.43.0


From 2be03bd366ad61d8981508c4cb54d201cdeb7ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:18 +0000
Subject: [PATCH 29/36] fix: process noise of the core states

The closed form was wrong: gyro noise entered the velocity without the factor dt, several
entries of the first rows and columns were never set and the result was not symmetric.
---
 .../msf_core/implementation/calcQCore.h       | 716 ++----------------
 1 file changed, 48 insertions(+), 668 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/calcQCore.h b/msf_core/include/msf_core/implementation/calcQCore.h
index 0bc5b2d..e83595b 100644
--- a/msf_core/include/msf_core/implementation/calcQCore.h
+++ b/msf_core/include/msf_core/implementation/calcQCore.h
@@ -17,6 +17,7 @@
 #ifndef CALCQ_H_
 #define CALCQ_H_
 
+#include <cmath>
 #include <Eigen/Eigen>
 #include <msf_core/msf_core.h>
 
@@ -36,348 +37,6 @@ void CalcQCore(const double dt, const Eigen::Quaternion<double> & q,
                 const Eigen::MatrixBase<Derived> & n_bw,
                 Eigen::MatrixBase<DerivedQ> & Qd) {
 
-  const double q1 = q.w(), q2 = q.x(), q3 = q.y(), q4 = q.z();
-  const double ew1 = ew(0), ew2 = ew(1), ew3 = ew(2);
-  const double ea1 = ea(0), ea2 = ea(1), ea3 = ea(2);
-  const double n_a1 = n_a(0), n_a2 = n_a(1), n_a3 = n_a(2);
-  const double n_ba1 = n_ba(0), n_ba2 = n_ba(1), n_ba3 = n_ba(2);
-  const double n_w1 = n_w(0), n_w2 = n_w(1), n_w3 = n_w(2);
-  const double n_bw1 = n_bw(0), n_bw2 = n_bw(1), n_bw3 = n_bw(2);
-
-  const double t343 = dt * dt;
-  const double t348 = q1 * q4 * 2.0;
-  const double t349 = q2 * q3 * 2.0;
-  const double t344 = t348 - t349;
-  const double t356 = q1 * q3 * 2.0;
-  const double t357 = q2 * q4 * 2.0;
-  const double t345 = t356 + t357;
-  const double t350 = q1 * q1;
-  const double t351 = q2 * q2;
-  const double t352 = q3 * q3;
-  const double t353 = q4 * q4;
-  const double t346 = t350 + t351 - t352 - t353;
-  const double t347 = n_a1 * n_a1;
-  const double t354 = n_a2 * n_a2;
-  const double t355 = n_a3 * n_a3;
-  const double t358 = q1 * q2 * 2.0;
-  const double t359 = t344 * t344;
-  const double t360 = t345 * t345;
-  const double t361 = t346 * t346;
-  const double t363 = ea2 * t345;
-  const double t364 = ea3 * t344;
-  const double t362 = t363 + t364;
-  const double t365 = t362 * t362;
-  const double t366 = t348 + t349;
-  const double t367 = t350 - t351 + t352 - t353;
-  const double t368 = q3 * q4 * 2.0;
-  const double t369 = t356 - t357;
-  const double t370 = t350 - t351 - t352 + t353;
-  const double t371 = n_w3 * n_w3;
-  const double t372 = t358 + t368;
-  const double t373 = n_w2 * n_w2;
-  const double t374 = n_w1 * n_w1;
-  const double t375 = dt * t343 * t346 * t347 * t366 * (1.0 / 3.0);
-  const double t376 = t358 - t368;
-  const double t377 = t343 * t346 * t347 * t366 * (1.0 / 2.0);
-  const double t378 = t366 * t366;
-  const double t379 = t376 * t376;
-  const double t380 = ea1 * t367;
-  const double t391 = ea2 * t366;
-  const double t381 = t380 - t391;
-  const double t382 = ea3 * t367;
-  const double t383 = ea2 * t376;
-  const double t384 = t382 + t383;
-  const double t385 = t367 * t367;
-  const double t386 = ea1 * t376;
-  const double t387 = ea3 * t366;
-  const double t388 = t386 + t387;
-  const double t389 = ea2 * t370;
-  const double t407 = ea3 * t372;
-  const double t390 = t389 - t407;
-  const double t392 = ea1 * t372;
-  const double t393 = ea2 * t369;
-  const double t394 = t392 + t393;
-  const double t395 = ea1 * t370;
-  const double t396 = ea3 * t369;
-  const double t397 = t395 + t396;
-  const double t398 = n_ba1 * n_ba1;
-  const double t399 = n_ba2 * n_ba2;
-  const double t400 = n_ba3 * n_ba3;
-  const double t401 = dt * t343 * t345 * t355 * t370 * (1.0 / 3.0);
-  const double t402 = t401 - dt * t343 * t346 * t347 * t369 * (1.0 / 3.0)
-      - dt * t343 * t344 * t354 * t372 * (1.0 / 3.0);
-  const double t403 = dt * t343 * t354 * t367 * t372 * (1.0 / 3.0);
-  const double t404 = t403 - dt * t343 * t347 * t366 * t369 * (1.0 / 3.0)
-      - dt * t343 * t355 * t370 * t376 * (1.0 / 3.0);
-  const double t405 = t343 * t345 * t355 * t370 * (1.0 / 2.0);
-  const double t406 = dt * t343 * t362 * t373 * t397 * (1.0 / 6.0);
-  const double t421 = t343 * t346 * t347 * t369 * (1.0 / 2.0);
-  const double t422 = dt * t343 * t362 * t371 * t394 * (1.0 / 6.0);
-  const double t423 = t343 * t344 * t354 * t372 * (1.0 / 2.0);
-  const double t424 = dt * t343 * t362 * t374 * t390 * (1.0 / 6.0);
-  const double t408 = t405 + t406 - t421 - t422 - t423 - t424;
-  const double t409 = t343 * t354 * t367 * t372 * (1.0 / 2.0);
-  const double t410 = dt * t343 * t374 * t384 * t390 * (1.0 / 6.0);
-  const double t411 = dt * t343 * t373 * t388 * t397 * (1.0 / 6.0);
-  const double t463 = t343 * t355 * t370 * t376 * (1.0 / 2.0);
-  const double t464 = t343 * t347 * t366 * t369 * (1.0 / 2.0);
-  const double t465 = dt * t343 * t371 * t381 * t394 * (1.0 / 6.0);
-  const double t412 = t409 + t410 + t411 - t463 - t464 - t465;
-  const double t413 = t369 * t369;
-  const double t414 = t372 * t372;
-  const double t415 = t370 * t370;
-  const double t416 = t343 * t354 * t359 * (1.0 / 2.0);
-  const double t417 = t343 * t355 * t360 * (1.0 / 2.0);
-  const double t418 = t343 * t347 * t361 * (1.0 / 2.0);
-  const double t419 = t416 + t417 + t418 - dt * t343 * t365 * t371 * (1.0 / 6.0)
-      - dt * t343 * t365 * t373 * (1.0 / 6.0)
-      - dt * t343 * t365 * t374 * (1.0 / 6.0);
-  const double t453 = t343 * t344 * t354 * t367 * (1.0 / 2.0);
-  const double t454 = t343 * t345 * t355 * t376 * (1.0 / 2.0);
-  const double t420 = t377 - t453 - t454;
-  const double t426 = ew2 * t362;
-  const double t427 = ew3 * t362;
-  const double t425 = t426 - t427;
-  const double t428 = dt * t365;
-  const double t429 = ew1 * ew1;
-  const double t430 = ew2 * ew2;
-  const double t431 = ew3 * ew3;
-  const double t432 = t430 + t431;
-  const double t433 = t362 * t432;
-  const double t434 = ew1 * t343 * t365;
-  const double t435 = t429 + t431;
-  const double t436 = t362 * t435;
-  const double t443 = ew2 * ew3 * t362;
-  const double t437 = t433 + t436 - t443;
-  const double t438 = ew1 * t362 * t394;
-  const double t511 = ew1 * t362 * t397;
-  const double t439 = t438 - t511;
-  const double t440 = t343 * t439 * (1.0 / 2.0);
-  const double t441 = t429 + t430;
-  const double t442 = t362 * t441;
-  const double t444 = t390 * t432;
-  const double t445 = ew2 * t394;
-  const double t446 = ew3 * t397;
-  const double t447 = t445 + t446;
-  const double t448 = ew1 * ew2 * t362;
-  const double t449 = ew1 * ew3 * t362;
-  const double t450 = ew1 * ew3 * t362 * (1.0 / 2.0);
-  const double t451 = dt * t362;
-  const double t452 = ew1 * t343 * t362 * (1.0 / 2.0);
-  const double t455 = dt * t343 * t362 * t374 * t384 * (1.0 / 6.0);
-  const double t456 = t343 * t347 * t378 * (1.0 / 2.0);
-  const double t457 = t343 * t355 * t379 * (1.0 / 2.0);
-  const double t458 = t381 * t381;
-  const double t459 = t384 * t384;
-  const double t460 = t343 * t354 * t385 * (1.0 / 2.0);
-  const double t461 = t388 * t388;
-  const double t462 = t456 + t457 + t460 - dt * t343 * t371 * t458 * (1.0 / 6.0)
-      - dt * t343 * t374 * t459 * (1.0 / 6.0)
-      - dt * t343 * t373 * t461 * (1.0 / 6.0);
-  const double t466 = t433 + t442 - t443;
-  const double t467 = ew1 * t362 * t388;
-  const double t468 = ew1 * t362 * t381;
-  const double t469 = t467 + t468;
-  const double t470 = t343 * t469 * (1.0 / 2.0);
-  const double t471 = t384 * t432;
-  const double t472 = ew2 * t381;
-  const double t479 = ew3 * t388;
-  const double t473 = t472 - t479;
-  const double t474 = -t433 + t448 + t449;
-  const double t475 = dt * t343 * t346 * t366 * t398 * (1.0 / 3.0);
-  const double t476 = dt * t346 * t347 * t366;
-  const double t477 = ew2 * ew3 * t381;
-  const double t492 = t388 * t435;
-  const double t478 = t471 + t477 - t492;
-  const double t480 = t472 - t479;
-  const double t481 = ew1 * ew3 * t381;
-  const double t482 = ew1 * ew2 * t388;
-  const double t483 = t471 + t481 + t482;
-  const double t484 = ew2 * ew3 * t388;
-  const double t486 = t381 * t441;
-  const double t485 = t471 + t484 - t486;
-  const double t487 = t394 * t441;
-  const double t488 = ew2 * ew3 * t397;
-  const double t489 = t444 + t487 + t488;
-  const double t490 = t397 * t435;
-  const double t491 = ew2 * ew3 * t394;
-  const double t493 = ew1 * t381 * t397;
-  const double t541 = ew1 * t388 * t394;
-  const double t494 = t493 - t541;
-  const double t495 = t343 * t494 * (1.0 / 2.0);
-  const double t496 = ew1 * ew2 * t397;
-  const double t527 = ew1 * ew3 * t394;
-  const double t497 = t444 + t496 - t527;
-  const double t498 = ew2 * ew3 * t381 * (1.0 / 2.0);
-  const double t499 = ew1 * t343 * t381 * (1.0 / 2.0);
-  const double t500 = t384 * t432 * (1.0 / 2.0);
-  const double t501 = ew2 * ew3 * t388 * (1.0 / 2.0);
-  const double t502 = n_bw1 * n_bw1;
-  const double t503 = n_bw3 * n_bw3;
-  const double t504 = t343 * t347 * t413 * (1.0 / 2.0);
-  const double t505 = t343 * t354 * t414 * (1.0 / 2.0);
-  const double t506 = t397 * t397;
-  const double t507 = t390 * t390;
-  const double t508 = t343 * t355 * t415 * (1.0 / 2.0);
-  const double t509 = t394 * t394;
-  const double t510 = t504 + t505 + t508 - dt * t343 * t373 * t506 * (1.0 / 6.0)
-      - dt * t343 * t371 * t509 * (1.0 / 6.0)
-      - dt * t343 * t374 * t507 * (1.0 / 6.0);
-  const double t512 = -t444 + t490 + t491;
-  const double t513 = t397 * t437 * (1.0 / 2.0);
-  const double t514 = t362 * t394 * t429;
-  const double t515 = dt * t362 * t397;
-  const double t516 = t362 * t489 * (1.0 / 2.0);
-  const double t517 = t394 * t466 * (1.0 / 2.0);
-  const double t518 = t362 * t397 * t429;
-  const double t519 = t516 + t517 + t518;
-  const double t520 = dt * t362 * t394;
-  const double t521 = t440 + t520 - dt * t343 * t519 * (1.0 / 3.0);
-  const double t522 = t371 * t521;
-  const double t523 = t362 * t447;
-  const double t524 = t390 * t425;
-  const double t525 = t523 + t524;
-  const double t526 = t343 * t525 * (1.0 / 2.0);
-  const double t528 = t425 * t447;
-  const double t529 = t390 * t474 * (1.0 / 2.0);
-  const double t530 = t528 + t529 - t362 * t497 * (1.0 / 2.0);
-  const double t531 = dt * t343 * t530 * (1.0 / 3.0);
-  const double t532 = dt * t362 * t390;
-  const double t533 = t526 + t531 + t532;
-  const double t534 = t374 * t533;
-  const double t535 = dt * t343 * t345 * t370 * t400 * (1.0 / 3.0);
-  const double t536 = dt * t345 * t355 * t370;
-  const double t537 = t381 * t489 * (1.0 / 2.0);
-  const double t538 = t388 * t397 * t429;
-  const double t539 = t537 + t538 - t394 * t485 * (1.0 / 2.0);
-  const double t540 = dt * t343 * t539 * (1.0 / 3.0);
-  const double t542 = t495 + t540 - dt * t381 * t394;
-  const double t543 = t388 * t512 * (1.0 / 2.0);
-  const double t544 = t381 * t394 * t429;
-  const double t545 = t543 + t544 - t397 * t478 * (1.0 / 2.0);
-  const double t546 = dt * t343 * t545 * (1.0 / 3.0);
-  const double t547 = t495 + t546 - dt * t388 * t397;
-  const double t548 = t373 * t547;
-  const double t549 = t384 * t447;
-  const double t550 = t549 - t390 * t473;
-  const double t551 = t343 * t550 * (1.0 / 2.0);
-  const double t552 = t384 * t497 * (1.0 / 2.0);
-  const double t553 = t390 * t483 * (1.0 / 2.0);
-  const double t554 = t447 * t473;
-  const double t555 = t552 + t553 + t554;
-  const double t556 = dt * t384 * t390;
-  const double t557 = t551 + t556 - dt * t343 * t555 * (1.0 / 3.0);
-  const double t558 = dt * t343 * t367 * t372 * t399 * (1.0 / 3.0);
-  const double t559 = dt * t354 * t367 * t372;
-  const double t560 = t548 + t558 + t559 - t371 * t542 - t374 * t557
-      - dt * t347 * t366 * t369 - dt * t355 * t370 * t376
-      - dt * t343 * t366 * t369 * t398 * (1.0 / 3.0)
-      - dt * t343 * t370 * t376 * t400 * (1.0 / 3.0);
-  const double t561 = ew1 * t343 * t394 * t397;
-  const double t562 = ew1 * t343 * t397 * (1.0 / 2.0);
-  const double t563 = n_bw2 * n_bw2;
-  const double t564 = dt * t343 * t362 * t374 * (1.0 / 6.0);
-  const double t565 = dt * t343 * t374 * t390 * (1.0 / 6.0);
-  const double t566 = ew1 * ew2 * t362 * (1.0 / 2.0);
-  const double t567 = -t433 + t450 + t566;
-  const double t568 = dt * t343 * t567 * (1.0 / 3.0);
-  const double t569 = t343 * t425 * (1.0 / 2.0);
-  const double t570 = t451 + t568 + t569;
-  const double t571 = dt * t343 * t362 * t373 * t432 * (1.0 / 6.0);
-  const double t572 = dt * t343 * t362 * t371 * t432 * (1.0 / 6.0);
-  const double t573 = t571 + t572 - t374 * t570;
-  const double t574 = ew1 * ew2 * t397 * (1.0 / 2.0);
-  const double t575 = t444 + t574 - ew1 * ew3 * t394 * (1.0 / 2.0);
-  const double t576 = t343 * t447 * (1.0 / 2.0);
-  const double t577 = dt * t390;
-  const double t578 = t576 + t577 - dt * t343 * t575 * (1.0 / 3.0);
-  const double t579 = dt * t343 * t371 * t394 * t432 * (1.0 / 6.0);
-  const double t580 = t579 - t374 * t578
-      - dt * t343 * t373 * t397 * t432 * (1.0 / 6.0);
-  const double t581 = dt * t343 * t373 * t388 * (1.0 / 6.0);
-  const double t582 = t362 * t432 * (1.0 / 2.0);
-  const double t583 = ew2 * ew3 * t362 * (1.0 / 2.0);
-  const double t584 = t362 * t429;
-  const double t585 = t583 + t584;
-  const double t586 = ew3 * t473;
-  const double t587 = ew1 * ew2 * t384 * (1.0 / 2.0);
-  const double t588 = t586 + t587;
-  const double t589 = dt * t343 * t588 * (1.0 / 3.0);
-  const double t590 = t374 * (t589 - ew3 * t343 * t384 * (1.0 / 2.0));
-  const double t591 = t388 * t429;
-  const double t592 = t498 + t591;
-  const double t593 = dt * t343 * t592 * (1.0 / 3.0);
-  const double t594 = t499 + t593;
-  const double t595 = -t492 + t498 + t500;
-  const double t596 = dt * t343 * t595 * (1.0 / 3.0);
-  const double t597 = dt * t388;
-  const double t598 = -t499 + t596 + t597;
-  const double t599 = t590 - t371 * t594 - t373 * t598;
-  const double t600 = t397 * t429;
-  const double t601 = ew2 * ew3 * t394 * (1.0 / 2.0);
-  const double t602 = ew1 * t343 * t394 * (1.0 / 2.0);
-  const double t603 = ew3 * t447;
-  const double t604 = t603 - ew1 * ew2 * t390 * (1.0 / 2.0);
-  const double t605 = dt * t343 * t604 * (1.0 / 3.0);
-  const double t606 = ew3 * t343 * t390 * (1.0 / 2.0);
-  const double t607 = t605 + t606;
-  const double t608 = t374 * t607;
-  const double t609 = t390 * t432 * (1.0 / 2.0);
-  const double t610 = dt * t397;
-  const double t611 = t430 * (1.0 / 2.0);
-  const double t612 = t431 * (1.0 / 2.0);
-  const double t613 = t611 + t612;
-  const double t614 = ew1 * t343 * (1.0 / 2.0);
-  const double t615 = dt * t343 * t362 * t371 * (1.0 / 6.0);
-  const double t616 = dt * t343 * t371 * t381 * (1.0 / 6.0);
-  const double t617 = dt * t343 * t371 * t394 * (1.0 / 6.0);
-  const double t618 = ew2 * t425;
-  const double t619 = t450 + t618;
-  const double t620 = dt * t343 * t619 * (1.0 / 3.0);
-  const double t621 = ew2 * t343 * t362 * (1.0 / 2.0);
-  const double t622 = t620 + t621;
-  const double t623 = dt * t343 * t585 * (1.0 / 3.0);
-  const double t624 = t381 * t429;
-  const double t625 = t501 + t624;
-  const double t626 = dt * t343 * t625 * (1.0 / 3.0);
-  const double t627 = ew1 * t343 * t388 * (1.0 / 2.0);
-  const double t628 = ew2 * t473;
-  const double t629 = t628 - ew1 * ew3 * t384 * (1.0 / 2.0);
-  const double t630 = dt * t343 * t629 * (1.0 / 3.0);
-  const double t631 = t630 - ew2 * t343 * t384 * (1.0 / 2.0);
-  const double t632 = -t486 + t500 + t501;
-  const double t633 = dt * t343 * t632 * (1.0 / 3.0);
-  const double t634 = dt * t381;
-  const double t635 = t627 + t633 + t634;
-  const double t636 = ew2 * t447;
-  const double t637 = ew1 * ew3 * t390 * (1.0 / 2.0);
-  const double t638 = t636 + t637;
-  const double t639 = dt * t343 * t638 * (1.0 / 3.0);
-  const double t640 = ew2 * t343 * t390 * (1.0 / 2.0);
-  const double t641 = t639 + t640;
-  const double t642 = t394 * t429;
-  const double t643 = ew2 * ew3 * t397 * (1.0 / 2.0);
-  const double t644 = t487 + t609 + t643;
-  const double t645 = dt * t343 * t644 * (1.0 / 3.0);
-  const double t646 = t562 + t645 - dt * t394;
-  const double t647 = t371 * t646;
-  const double t648 = ew2 * t343 * (1.0 / 2.0);
-  const double t649 = dt * ew1 * ew3 * t343 * (1.0 / 6.0);
-  const double t650 = t648 + t649;
-  const double t651 = t374 * t650;
-  const double t652 = t651 - dt * t343 * t371 * t613 * (1.0 / 3.0);
-  const double t653 = dt * ew2 * ew3 * t343 * (1.0 / 6.0);
-  const double t654 = t614 + t653;
-  const double t655 = t371 * t654;
-  const double t656 = dt * t343 * t397 * t563 * (1.0 / 6.0);
-  const double t657 = dt * ew1 * t343 * t563 * (1.0 / 6.0);
-  const double t658 = dt * t343 * t369 * t398 * (1.0 / 6.0);
-  const double t659 = t343 * t369 * t398 * (1.0 / 2.0);
-  const double t660 = dt * t343 * t344 * t399 * (1.0 / 6.0);
-  const double t661 = t343 * t344 * t399 * (1.0 / 2.0);
-  const double t662 = dt * t343 * t376 * t400 * (1.0 / 6.0);
-  const double t663 = t343 * t376 * t400 * (1.0 / 2.0);
-
   enum {
     idxstartcorr_p = msf_tmp::GetStartIndexInCorrection<StateSequence_T,
         StateDefinition_T::p>::value,
@@ -391,332 +50,53 @@ void CalcQCore(const double dt, const Eigen::Quaternion<double> & q,
         StateDefinition_T::b_a>::value
   };
 
-  Qd(idxstartcorr_p + 0, idxstartcorr_p + 0) = dt * t343 * t347 * t361
-      * (1.0 / 3.0) + dt * t343 * t354 * t359 * (1.0 / 3.0)
-      + dt * t343 * t355 * t360 * (1.0 / 3.0);
-  Qd(idxstartcorr_p + 0, idxstartcorr_p + 1) = t375
-      - dt * t343 * t345 * t355 * (t358 - q3 * q4 * 2.0) * (1.0 / 3.0)
-      - dt * t343 * t344 * t354 * t367 * (1.0 / 3.0);
-  Qd(idxstartcorr_p + 0, idxstartcorr_p + 2) = t402;
-  Qd(idxstartcorr_p + 0, idxstartcorr_v + 0) = t419;
-  Qd(idxstartcorr_p + 0, idxstartcorr_v + 1) = t420;
-  Qd(idxstartcorr_p + 0, idxstartcorr_v + 2) = t408;
-  Qd(idxstartcorr_p + 0, idxstartcorr_q + 0) = t564;
-  Qd(idxstartcorr_p + 0, idxstartcorr_q + 2) = t615;
-  Qd(idxstartcorr_p + 0, idxstartcorr_b_a + 0) = dt * t343 * t346 * t398
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 0, idxstartcorr_b_a + 1) = t660;
-  Qd(idxstartcorr_p + 0, idxstartcorr_b_a + 2) = dt * t343 * t345 * t400
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_p + 0) = t375
-      - dt * t343 * t344 * t354 * t367 * (1.0 / 3.0)
-      - dt * t343 * t345 * t355 * t376 * (1.0 / 3.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_p + 1) = dt * t343 * t347 * t378
-      * (1.0 / 3.0) + dt * t343 * t355 * t379 * (1.0 / 3.0)
-      + dt * t343 * t354 * t385 * (1.0 / 3.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_p + 2) = t404;
-  Qd(idxstartcorr_p + 1, idxstartcorr_v + 0) = t377 + t455
-      - t343 * t344 * t354 * t367 * (1.0 / 2.0)
-      - t343 * t345 * t355 * t376 * (1.0 / 2.0)
-      - dt * t343 * t362 * t371 * t381 * (1.0 / 6.0)
-      - dt * t343 * t362 * t373 * t388 * (1.0 / 6.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_v + 1) = t462;
-  Qd(idxstartcorr_p + 1, idxstartcorr_v + 2) = t412;
-  Qd(idxstartcorr_p + 1, idxstartcorr_q + 0) = dt * t343 * t374 * t384
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_q + 1) = t581;
-  Qd(idxstartcorr_p + 1, idxstartcorr_q + 2) = t616;
-  Qd(idxstartcorr_p + 1, idxstartcorr_b_a + 0) = dt * t343 * t366 * t398
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_b_a + 1) = dt * t343 * t367 * t399
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_b_a + 2) = t662;
-  Qd(idxstartcorr_p + 2, idxstartcorr_p + 0) = t402;
-  Qd(idxstartcorr_p + 2, idxstartcorr_p + 1) = t404;
-  Qd(idxstartcorr_p + 2, idxstartcorr_p + 2) = dt * t343 * t347 * t413
-      * (1.0 / 3.0) + dt * t343 * t354 * t414 * (1.0 / 3.0)
-      + dt * t343 * t355 * t415 * (1.0 / 3.0);
-  Qd(idxstartcorr_p + 2, idxstartcorr_v + 0) = t408;
-  Qd(idxstartcorr_p + 2, idxstartcorr_v + 1) = t412;
-  Qd(idxstartcorr_p + 2, idxstartcorr_v + 2) = t510;
-  Qd(idxstartcorr_p + 2, idxstartcorr_q + 0) = t565;
-  Qd(idxstartcorr_p + 2, idxstartcorr_q + 1) = dt * t343 * t373 * t397
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 2, idxstartcorr_q + 2) = t617;
-  Qd(idxstartcorr_p + 2, idxstartcorr_b_a + 0) = t658;
-  Qd(idxstartcorr_p + 2, idxstartcorr_b_a + 1) = dt * t343 * t372 * t399
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 2, idxstartcorr_b_a + 2) = dt * t343 * t370 * t400
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_p + 0) = t419;
-  Qd(idxstartcorr_v + 0, idxstartcorr_p + 1) = t420;
-  Qd(idxstartcorr_v + 0, idxstartcorr_p + 2) = t408;
-  Qd(idxstartcorr_v + 0, idxstartcorr_v + 0) =
-      t374
-          * (t428 + t343 * t362 * t425
-              + dt * t343 * (t362 * (t448 + t449 - t362 * t432) + t425 * t425)
-                  * (1.0 / 3.0))
-          + t373
-              * (t428 - t434
-                  + dt * t343 * (t365 * t429 - t362 * t437) * (1.0 / 3.0))
-          + t371
-              * (t428 + t434
-                  + dt * t343
-                      * (t365 * t429 - t362 * (t433 + t442 - ew2 * ew3 * t362))
-                      * (1.0 / 3.0)) + dt * t347 * t361 + dt * t354 * t359
-          + dt * t355 * t360 + dt * t343 * t359 * t399 * (1.0 / 3.0)
-          + dt * t343 * t361 * t398 * (1.0 / 3.0)
-          + dt * t343 * t360 * t400 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_v + 1) = t475 + t476
-      - dt * t344 * t354 * t367 - dt * t345 * t355 * t376
-      - dt * t343 * t344 * t367 * t399 * (1.0 / 3.0)
-      - dt * t343 * t345 * t376 * t400 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_v + 2) = t522 + t534 + t535 + t536
-      - t373
-          * (t440 + t515
-              - dt * t343
-                  * (t513 + t514
-                      + t362 * (t490 + t491 - t390 * t432) * (1.0 / 2.0))
-                  * (1.0 / 3.0)) - dt * t346 * t347 * t369
-      - dt * t344 * t354 * t372 - dt * t343 * t346 * t369 * t398 * (1.0 / 3.0)
-      - dt * t343 * t344 * t372 * t399 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_q + 0) = t573;
-  Qd(idxstartcorr_v + 0, idxstartcorr_q + 2) = -t371
-      * (t451 + t452
-          - dt * t343 * (t442 + t582 - ew2 * ew3 * t362 * (1.0 / 2.0))
-              * (1.0 / 3.0)) - t374 * t622
-      + t373 * (t452 - dt * t343 * t585 * (1.0 / 3.0));
-  Qd(idxstartcorr_v + 0, idxstartcorr_b_w + 0) = dt * t343 * t362 * t502
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_b_w + 2) = dt * t343 * t362 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_b_a + 0) = t343 * t346 * t398
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_b_a + 1) = t661;
-  Qd(idxstartcorr_v + 0, idxstartcorr_b_a + 2) = t343 * t345 * t400
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_p + 0) = t377 - t453 - t454 + t455
-      - dt * t343 * t362 * t371 * t381 * (1.0 / 6.0)
-      - dt * t343 * t362 * t373 * t388 * (1.0 / 6.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_p + 1) = t462;
-  Qd(idxstartcorr_v + 1, idxstartcorr_p + 2) = t412;
-  Qd(idxstartcorr_v + 1, idxstartcorr_v + 0) = t475 + t476
-      - t374
-          * (t343 * (t384 * t425 - t362 * t473) * (1.0 / 2.0)
-              - dt * t343
-                  * (t362 * t483 * (1.0 / 2.0) - t384 * t474 * (1.0 / 2.0)
-                      + t425 * t473) * (1.0 / 3.0) + dt * t362 * t384)
-      + t371
-          * (t470 + dt * t362 * t381
-              + dt * t343
-                  * (t362 * t485 * (1.0 / 2.0) - t381 * t466 * (1.0 / 2.0)
-                      + t362 * t388 * t429) * (1.0 / 3.0))
-      + t373
-          * (-t470 + dt * t362 * t388
-              + dt * t343
-                  * (t388 * t437 * (-1.0 / 2.0) + t362 * t478 * (1.0 / 2.0)
-                      + t362 * t381 * t429) * (1.0 / 3.0))
-      - dt * t344 * t354 * t367 - dt * t345 * t355 * t376
-      - dt * t343 * t344 * t367 * t399 * (1.0 / 3.0)
-      - dt * t343 * t345 * t376 * t400 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_v + 1) = -t374
-      * (-dt * t459 + dt * t343 * (t384 * t483 - t480 * t480) * (1.0 / 3.0)
-          + t343 * t384 * t473)
-      + t373
-          * (dt * t461 + dt * t343 * (t388 * t478 + t429 * t458) * (1.0 / 3.0)
-              - ew1 * t343 * t381 * t388)
-      + t371
-          * (dt * t458 + dt * t343 * (t381 * t485 + t429 * t461) * (1.0 / 3.0)
-              + ew1 * t343 * t381 * t388) + dt * t347 * t378 + dt * t355 * t379
-      + dt * t354 * t385 + dt * t343 * t378 * t398 * (1.0 / 3.0)
-      + dt * t343 * t385 * t399 * (1.0 / 3.0)
-      + dt * t343 * t379 * t400 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_v + 2) = t560;
-  Qd(idxstartcorr_v + 1, idxstartcorr_q + 0) = -t374
-      * (-dt * t384 + t343 * t473 * (1.0 / 2.0)
-          + dt * t343
-              * (t471 + ew1 * ew2 * t388 * (1.0 / 2.0)
-                  + ew1 * ew3 * t381 * (1.0 / 2.0)) * (1.0 / 3.0))
-      + dt * t343 * t371 * t381 * t432 * (1.0 / 6.0)
-      + dt * t343 * t373 * t388 * t432 * (1.0 / 6.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_q + 1) = t599;
-  Qd(idxstartcorr_v + 1, idxstartcorr_q + 2) = -t374 * t631 - t371 * t635
-      - t373 * (t626 - ew1 * t343 * t388 * (1.0 / 2.0));
-  Qd(idxstartcorr_v + 1, idxstartcorr_b_w + 0) = dt * t343 * t384 * t502
-      * (1.0 / 6.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_b_w + 1) = dt * t343 * t388 * t563
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_b_w + 2) = dt * t343 * t381 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_b_a + 0) = t343 * t366 * t398
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_b_a + 1) = t343 * t367 * t399
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_b_a + 2) = t663;
-  Qd(idxstartcorr_v + 2, idxstartcorr_p + 0) = t408;
-  Qd(idxstartcorr_v + 2, idxstartcorr_p + 1) = t412;
-  Qd(idxstartcorr_v + 2, idxstartcorr_p + 2) = t510;
-  Qd(idxstartcorr_v + 2, idxstartcorr_v + 0) = t522 + t534 + t535 + t536
-      - t373
-          * (t440 + t515
-              - dt * t343 * (t513 + t514 + t362 * t512 * (1.0 / 2.0))
-                  * (1.0 / 3.0)) - dt * t346 * t347 * t369
-      - dt * t344 * t354 * t372 - dt * t343 * t346 * t369 * t398 * (1.0 / 3.0)
-      - dt * t343 * t344 * t372 * t399 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 2, idxstartcorr_v + 1) = t560;
-  Qd(idxstartcorr_v + 2, idxstartcorr_v + 2) = -t371
-      * (t561 - dt * t509
-          + dt * t343 * (t394 * t489 - t429 * t506) * (1.0 / 3.0))
-      + t373
-          * (t561 + dt * t506
-              - dt * t343 * (t397 * t512 - t429 * t509) * (1.0 / 3.0))
-      + t374
-          * (dt * t507 - dt * t343 * (t390 * t497 - t447 * t447) * (1.0 / 3.0)
-              + t343 * t390 * t447) + dt * t347 * t413 + dt * t354 * t414
-      + dt * t355 * t415 + dt * t343 * t398 * t413 * (1.0 / 3.0)
-      + dt * t343 * t399 * t414 * (1.0 / 3.0)
-      + dt * t343 * t400 * t415 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 2, idxstartcorr_q + 0) = t580;
-  Qd(idxstartcorr_v + 2, idxstartcorr_q + 1) = t608
-      + t371
-          * (dt * t343 * (t600 - ew2 * ew3 * t394 * (1.0 / 2.0)) * (1.0 / 3.0)
-              - ew1 * t343 * t394 * (1.0 / 2.0))
-      + t373
-          * (t602 + t610
-              - dt * t343 * (t490 + t601 - t390 * t432 * (1.0 / 2.0))
-                  * (1.0 / 3.0));
-  Qd(idxstartcorr_v + 2, idxstartcorr_q + 2) = t647 - t374 * t641
-      - t373
-          * (t562
-              + dt * t343 * (t642 - ew2 * ew3 * t397 * (1.0 / 2.0))
-                  * (1.0 / 3.0));
-  Qd(idxstartcorr_v + 2, idxstartcorr_b_w + 0) = dt * t343 * t390 * t502
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 2, idxstartcorr_b_w + 1) = t656;
-  Qd(idxstartcorr_v + 2, idxstartcorr_b_w + 2) = dt * t343 * t394 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 2, idxstartcorr_b_a + 0) = t659;
-  Qd(idxstartcorr_v + 2, idxstartcorr_b_a + 1) = t343 * t372 * t399
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_v + 2, idxstartcorr_b_a + 2) = t343 * t370 * t400
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_q + 0, idxstartcorr_p + 0) = t564;
-  Qd(idxstartcorr_q + 0, idxstartcorr_p + 2) = t565;
-  Qd(idxstartcorr_q + 0, idxstartcorr_v + 0) = t573;
-  Qd(idxstartcorr_q + 0, idxstartcorr_v + 2) = t580;
-  Qd(idxstartcorr_q + 0, idxstartcorr_q + 0) = t374
-      * (dt - dt * t343 * t432 * (1.0 / 3.0)) + dt * t343 * t502 * (1.0 / 3.0);
-  Qd(idxstartcorr_q + 0, idxstartcorr_q + 2) = t652;
-  Qd(idxstartcorr_q + 0, idxstartcorr_b_w + 0) = t343 * t502 * (-1.0 / 2.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_p + 0) = dt * t343 * t362 * t373
-      * (1.0 / 6.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_p + 1) = t581;
-  Qd(idxstartcorr_q + 1, idxstartcorr_p + 2) = dt * t343 * t373 * t397
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_v + 0) = -t371 * (t452 + t623)
-      - t374
-          * (dt * t343 * (t566 - ew3 * t425) * (1.0 / 3.0)
-              - ew3 * t343 * t362 * (1.0 / 2.0))
-      + t373 * (-t451 + t452 + dt * t343 * (t436 + t582 - t583) * (1.0 / 3.0));
-  Qd(idxstartcorr_q + 1, idxstartcorr_v + 1) = t599;
-  Qd(idxstartcorr_q + 1, idxstartcorr_v + 2) = t608
-      + t373 * (t602 + t610 - dt * t343 * (t490 + t601 - t609) * (1.0 / 3.0))
-      - t371 * (t602 - dt * t343 * (t600 - t601) * (1.0 / 3.0));
-  Qd(idxstartcorr_q + 1, idxstartcorr_q + 0) = -t374
-      * (ew3 * t343 * (1.0 / 2.0) - dt * ew1 * ew2 * t343 * (1.0 / 6.0))
-      - dt * t343 * t373 * t613 * (1.0 / 3.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_q + 1) = t373
-      * (dt - dt * t343 * t435 * (1.0 / 3.0)) + dt * t343 * t563 * (1.0 / 3.0)
-      + dt * t343 * t371 * t429 * (1.0 / 3.0)
-      + dt * t343 * t374 * t431 * (1.0 / 3.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_q + 2) = t655
-      - t373 * (t614 - dt * ew2 * ew3 * t343 * (1.0 / 6.0))
-      - dt * ew2 * ew3 * t343 * t374 * (1.0 / 3.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_b_w + 0) = dt * ew3 * t343 * t502
-      * (1.0 / 6.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_b_w + 1) = t343 * t563 * (-1.0 / 2.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_b_w + 2) = dt * ew1 * t343 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_q + 2, idxstartcorr_p + 0) = t615;
-  Qd(idxstartcorr_q + 2, idxstartcorr_p + 1) = t616;
-  Qd(idxstartcorr_q + 2, idxstartcorr_p + 2) = t617;
-  Qd(idxstartcorr_q + 2, idxstartcorr_v + 0) = -t374 * t622
-      - t371 * (t451 + t452 - dt * t343 * (t442 + t582 - t583) * (1.0 / 3.0))
-      + t373 * (t452 - t623);
-  Qd(idxstartcorr_q + 2, idxstartcorr_v + 1) = -t374 * t631 - t371 * t635
-      - t373 * (t626 - t627);
-  Qd(idxstartcorr_q + 2, idxstartcorr_v + 2) = t647 - t374 * t641
-      - t373 * (t562 + dt * t343 * (t642 - t643) * (1.0 / 3.0));
-  Qd(idxstartcorr_q + 2, idxstartcorr_q + 0) = t652;
-  Qd(idxstartcorr_q + 2, idxstartcorr_q + 1) = t655 - t373 * (t614 - t653)
-      - dt * ew2 * ew3 * t343 * t374 * (1.0 / 3.0);
-  Qd(idxstartcorr_q + 2, idxstartcorr_q + 2) = t371
-      * (dt - dt * t343 * t441 * (1.0 / 3.0)) + dt * t343 * t503 * (1.0 / 3.0)
-      + dt * t343 * t373 * t429 * (1.0 / 3.0)
-      + dt * t343 * t374 * t430 * (1.0 / 3.0);
-  Qd(idxstartcorr_q + 2, idxstartcorr_b_w + 0) = dt * ew2 * t343 * t502
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_q + 2, idxstartcorr_b_w + 1) = t657;
-  Qd(idxstartcorr_q + 2, idxstartcorr_b_w + 2) = t343 * t503 * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_w + 0, idxstartcorr_v + 0) = dt * t343 * t362 * t502
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 0, idxstartcorr_v + 2) = dt * t343 * t390 * t502
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 0, idxstartcorr_q + 0) = t343 * t502 * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_w + 0, idxstartcorr_q + 2) = dt * ew2 * t343 * t502
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 0, idxstartcorr_b_w + 0) = dt * t502;
-  Qd(idxstartcorr_b_w + 1, idxstartcorr_v + 0) = dt * t343 * t362 * t563
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 1, idxstartcorr_v + 1) = dt * t343 * t388 * t563
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 1, idxstartcorr_v + 2) = t656;
-  Qd(idxstartcorr_b_w + 1, idxstartcorr_q + 1) = t343 * t563 * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_w + 1, idxstartcorr_q + 2) = t657;
-  Qd(idxstartcorr_b_w + 1, idxstartcorr_b_w + 1) = dt * t563;
-  Qd(idxstartcorr_b_w + 2, idxstartcorr_v + 0) = dt * t343 * t362 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 2, idxstartcorr_v + 1) = dt * t343 * t381 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 2, idxstartcorr_v + 2) = dt * t343 * t394 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 2, idxstartcorr_q + 1) = dt * ew1 * t343 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 2, idxstartcorr_q + 2) = t343 * t503 * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_w + 2, idxstartcorr_b_w + 2) = dt * t503;
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_p + 0) = dt * t343 * t346 * t398
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_p + 1) = dt * t343 * t366 * t398
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_p + 2) = t658;
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_v + 0) = t343 * t346 * t398
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_v + 1) = t343 * t366 * t398
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_v + 2) = t659;
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_b_a + 0) = dt * t398;
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_p + 0) = t660;
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_p + 1) = dt * t343 * t367 * t399
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_p + 2) = dt * t343 * t372 * t399
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_v + 0) = t661;
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_v + 1) = t343 * t367 * t399
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_v + 2) = t343 * t372 * t399
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_b_a + 1) = dt * t399;
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_p + 0) = dt * t343 * t345 * t400
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_p + 1) = t662;
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_p + 2) = dt * t343 * t370 * t400
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_v + 0) = t343 * t345 * t400
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_v + 1) = t663;
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_v + 2) = t343 * t370 * t400
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_b_a + 2) = dt * t400;
+  typedef Eigen::Matrix<double, 3, 3> Matrix3;
+  const Matrix3 C = q.toRotationMatrix();
+  const Matrix3 eye3 = Matrix3::Identity();
+  const Matrix3 w_sk = Skew(ew);
+  const Matrix3 w_sk2 = w_sk * w_sk;
+  const Matrix3 Ca = C * Skew(ea);
+
+  // Noise densities of accelerometer, gyro, gyro bias and accelerometer bias.
+  Eigen::Matrix<double, 12, 1> noise;
+  noise << n_a, n_w, n_bw, n_ba;
+
+  // Qd is the integral of L * diag(noise)^2 * L^T over the interval, where L is
+  // the response of the core error states to noise entering a time t before its
+  // end (same truncated series as Fd). Gauss-Legendre quadrature keeps Qd
+  // symmetric and positive semi-definite.
+  const double offset = 0.5 * std::sqrt(0.6);
+  const double nodes[3] = { 0.5 - offset, 0.5, 0.5 + offset };
+  const double weights[3] = { 5.0 / 18.0, 8.0 / 18.0, 5.0 / 18.0 };
+
+  Eigen::Matrix<double, 15, 15> Q = Eigen::Matrix<double, 15, 15>::Zero();
+  for (int i = 0; i < 3; ++i) {
+    const double t = nodes[i] * dt;
+    const double t_p2_2 = t * t * 0.5;
+    const double t_p3_6 = t_p2_2 * t / 3.0;
+    const double t_p4_24 = t_p3_6 * t * 0.25;
+    const double t_p5_120 = t_p4_24 * t * 0.2;
+    const Matrix3 A = Ca * (-t_p2_2 * eye3 + t_p3_6 * w_sk - t_p4_24 * w_sk2);
+    const Matrix3 B = Ca * (t_p3_6 * eye3 - t_p4_24 * w_sk + t_p5_120 * w_sk2);
+    const Matrix3 F = -t * eye3 + t_p2_2 * w_sk - t_p3_6 * w_sk2;
+
+    Eigen::Matrix<double, 15, 12> L = Eigen::Matrix<double, 15, 12>::Zero();
+    L.template block<3, 3>(idxstartcorr_p, 0) = t * C;
+    L.template block<3, 3>(idxstartcorr_p, 3) = A;
+    L.template block<3, 3>(idxstartcorr_p, 6) = B;
+    L.template block<3, 3>(idxstartcorr_p, 9) = -t_p2_2 * C;
+    L.template block<3, 3>(idxstartcorr_v, 0) = C;
+    L.template block<3, 3>(idxstartcorr_v, 3) = Ca * F;
+    L.template block<3, 3>(idxstartcorr_v, 6) = -A;
+    L.template block<3, 3>(idxstartcorr_v, 9) = -t * C;
+    L.template block<3, 3>(idxstartcorr_q, 3) = eye3 - t * w_sk + t_p2_2 * w_sk2;
+    L.template block<3, 3>(idxstartcorr_q, 6) = F;
+    L.template block<3, 3>(idxstartcorr_b_w, 6) = eye3;
+    L.template block<3, 3>(idxstartcorr_b_a, 9) = eye3;
 
+    const Eigen::Matrix<double, 15, 12> LN = L * noise.asDiagonal();
+    Q += weights[i] * dt * LN * LN.transpose();
+  }
+  Qd.template block<15, 15>(0, 0) = Q;
 }
 #endif  // CALCQ_H_
-- 
2.43.0


From 6468d5fa8f7eda3cbe5e4083fc3a99cedc1ce54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:42 +0000
Subject: [PATCH 30/36] fix: height initialization with a reading at height
 zero set the scale to zero

---
 msf_updates/src/pose_msf/pose_sensormanager.h                 | 4 ++--
 .../src/pose_pressure_msf/pose_pressure_sensormanager.h       | 2 +-
 .../src/position_pose_msf/position_pose_sensormanager.h       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msf_updates/src/pose_msf/pose_sensormanager.h b/msf_updates/src/pose_msf/pose_sensormanager.h
index d990bd7..efc1bed 100644
--- a/msf_updates/src/pose_msf/pose_sensormanager.h
+++ b/msf_updates/src/pose_msf/pose_sensormanager.h
@@ -105,7 +105,7 @@ class PoseSensorManager : public msf_core::MSF_SensorManagerROS<
     if ((level & msf_updates::SinglePoseSensor_SET_HEIGHT)
         && config.core_set_height == true) {
       Eigen::Matrix<double, 3, 1> p = pose_handler_->GetPositionMeasurement();
-      if (p.norm() == 0) {
+      if (p[2] == 0) {
         MSF_WARN_STREAM(
             "No measurements received yet to initialize position. Height init "
             "not allowed.");
@@ -129,7 +129,7 @@ class PoseSensorManager : public msf_core::MSF_SensorManagerROS<
                   sensor_fusion_comm::InitHeight::Response &res) {
     ROS_INFO("Initialize filter with height %f", req.height);
     Eigen::Matrix<double, 3, 1> p = pose_handler_->GetPositionMeasurement();
-    if (p.norm() == 0) {
+    if (p[2] == 0) {
       MSF_WARN_STREAM(
           "No measurements received yet to initialize position. Height init "
           "not allowed.");
diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 2167c13..3d30c56 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -102,7 +102,7 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
     if ((level & msf_updates::SinglePoseSensor_SET_HEIGHT)
         && config.core_set_height == true) {
       Eigen::Matrix<double, 3, 1> p = pose_handler_->GetPositionMeasurement();
-      if (p.norm() == 0) {
+      if (p[2] == 0) {
         MSF_WARN_STREAM(
             "No measurements received yet to initialize position. Height init not allowed.");
         return;
diff --git a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
index bbfe165..feb7f86 100644
--- a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
+++ b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
@@ -109,7 +109,7 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
     if ((level & msf_updates::PositionPoseSensor_SET_HEIGHT)
         && config.core_set_height == true) {
       Eigen::Matrix<double, 3, 1> p = pose_handler_->GetPositionMeasurement();
-      if (p.norm() == 0) {
+      if (p[2] == 0) {
         MSF_WARN_STREAM(
             "No measurements received yet to initialize position. Height init "
             "not allowed.");
-- 
2.43.0


From 6e79b0c5440c41f4381a3624aa548c6b4cb34584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:58 +0000
Subject: [PATCH 31/36] fix: pose readings were ignored forever after a
 backward jump of their time stamps

---
 .../pose_sensor_handler/implementation/pose_sensorhandler.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp b/msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp
index 9000c04..0b34f6e 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp
@@ -148,7 +148,7 @@ void PoseSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::ProcessPoseMeasurement(
   double time_now = msg->header.stamp.toSec();
   const double epsilon = 0.001; // Small time correction to avoid rounding
   // errors in the timestamps.
-  if (time_now - timestamp_previous_pose_ <=
+  if (std::fabs(time_now - timestamp_previous_pose_) <=
       pose_measurement_minimum_dt_ - epsilon) {
     MSF_WARN_STREAM_THROTTLE(
         30, "Pose measurement throttling is on, dropping messages"
-- 
2.43.0


From 942d8213749365ac9e02c4b2fb8b0062391d18ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:30 +0000
Subject: [PATCH 32/36] fix: a degenerate reading made the estimate non-finite
 forever

---
 .../implementation/msf_measurement_inl.h      | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_measurement_inl.h b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
index e432832..965ace4 100644
--- a/msf_core/include/msf_core/implementation/msf_measurement_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
@@ -69,6 +69,14 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   }
 
   correction_ = K * res_delayed;
+
+  // A non-finite correction (degenerate reading) would spoil the estimate for
+  // good.
+  if (!CheckForNumeric(correction_, "correction")) {
+    MSF_WARN_STREAM_THROTTLE(1, "rejecting reading, correction is not finite");
+    return;
+  }
+
   const typename MSF_Core<EKFState_T>::ErrorStateCov KH =
       (MSF_Core<EKFState_T>::ErrorStateCov::Identity() - K * H_delayed);
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
@@ -113,6 +121,14 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   }
 
   correction_ = K * res_delayed;
+
+  // A non-finite correction (degenerate reading) would spoil the estimate for
+  // good.
+  if (!CheckForNumeric(correction_, "correction")) {
+    MSF_WARN_STREAM_THROTTLE(1, "rejecting reading, correction is not finite");
+    return;
+  }
+
   const typename MSF_Core<EKFState_T>::ErrorStateCov KH =
       (MSF_Core<EKFState_T>::ErrorStateCov::Identity() - K * H_delayed);
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
@@ -187,6 +203,13 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrectionRelative(
 
   correction_ = K * res;
 
+  // A non-finite correction (degenerate reading) would spoil the estimate for
+  // good.
+  if (!CheckForNumeric(correction_, "correction")) {
+    MSF_WARN_STREAM_THROTTLE(1, "rejecting reading, correction is not finite");
+    return;
+  }
+
   typename MSF_Core<EKFState_T>::ErrorStateCov & P = state_new->P;
   P = P - K * S_SC * K.transpose();
 
-- 
2.43.0


From 566246daf919e616a0c7a15942c5ff3e13aa915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 33/36] fix: a GPS reading without a fix (NaN) became the
 reference of all later ones

---
 .../implementation/position_sensorhandler.hpp             | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp b/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
index c48b4d4..243c113 100644
--- a/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
@@ -20,6 +20,7 @@
 #define POSITION_SENSORHANDLER_HPP_
 #include <msf_core/msf_types.h>
 #include <msf_core/eigen_utils.h>
+#include <cmath>
 #include <msf_core/gps_conversion.h>
 
 namespace msf_position_sensor {
@@ -190,6 +191,13 @@ void PositionSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::MeasurementCallback(
           << this->topic_namespace_ << "/" << subNavSatFix_.getTopic()
           << " ***");
 
+  // Receivers without a fix report NaN: must not become the reference.
+  if (!std::isfinite(msg->latitude) || !std::isfinite(msg->longitude)
+      || !std::isfinite(msg->altitude)) {
+    MSF_WARN_STREAM_THROTTLE(1, "ignoring GPS reading which is not finite");
+    return;
+  }
+
   // Fixed covariance will be set in measurement class -> MakeFromSensorReadingImpl.
   //TODO (slynen): Dynreconf reset reference.
   if (!gps_reference_initialized_) {
-- 
2.43.0


From 7adeb4bc1055612e558c3b083c2d05f84f855e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:10 +0000
Subject: [PATCH 34/36] fix: median of a vector of dynamic size read outside of
 its data

---
 msf_core/include/msf_core/msf_tools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msf_core/include/msf_core/msf_tools.h b/msf_core/include/msf_core/msf_tools.h
index ffb1141..4ff7d0f 100644
--- a/msf_core/include/msf_core/msf_tools.h
+++ b/msf_core/include/msf_core/msf_tools.h
@@ -35,9 +35,9 @@ typename Eigen::MatrixBase<D>::Scalar GetMedian(
       // Copy so we don't sort the original vector.
       Eigen::MatrixBase<D>::ColsAtCompileTime> m = data;
 
-  if (Eigen::MatrixBase<D>::SizeAtCompileTime) {
+  if (m.size() > 0) {
     double * begin = m.data();
-    double * end = m.data() + m.SizeAtCompileTime;
+    double * end = m.data() + m.size();
     double * middle = begin + static_cast<int>(std::floor((end - begin) / 2));
     std::nth_element(begin, middle, end);
     return *middle;
-- 
2.43.0


From b2b31b629f8b4e2a278bbc5a01650e45769685d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:10 +0000
Subject: [PATCH 35/36] fix: height correction of the GPS reference moved it
 along the earth axis

---
 msf_core/src/lib/gps_conversion.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/msf_core/src/lib/gps_conversion.cc b/msf_core/src/lib/gps_conversion.cc
index c3ea1ec..7266ea0 100644
--- a/msf_core/src/lib/gps_conversion.cc
+++ b/msf_core/src/lib/gps_conversion.cc
@@ -94,9 +94,11 @@ msf_core::Vector3 GPSConversion::WGS84ToENU(const double latitude,
 
 void GPSConversion::AdjustReference(const double z_correction) {
 
-  MSF_WARN_STREAM("z-ref old: "<< ecef_ref_point_(2));
-  ecef_ref_point_(2) += z_correction;
-  MSF_WARN_STREAM("z-ref new: "<< ecef_ref_point_(2));
+  // The correction is along the local vertical, not along the earth axis.
+  MSF_WARN_STREAM("ref old: "<< ecef_ref_point_.transpose());
+  ecef_ref_point_ += ecef_ref_orientation_.inverse()
+      * msf_core::Vector3(0, 0, z_correction);
+  MSF_WARN_STREAM("ref new: "<< ecef_ref_point_.transpose());
 }
 
 }
-- 
2.43.0


From 20a488321f9342819d30298514e10fb40aa8c682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:42 +0000
Subject: [PATCH 36/36] fix: convert the orientation message before computing
 the heading

---
 msf_updates/src/position_msf/init_yaw_from_compass.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/msf_updates/src/position_msf/init_yaw_from_compass.py b/msf_updates/src/position_msf/init_yaw_from_compass.py
index 2940bce..5245525 100755
--- a/msf_updates/src/position_msf/init_yaw_from_compass.py
+++ b/msf_updates/src/position_msf/init_yaw_from_compass.py
@@ -43,9 +43,7 @@ def callback_orientation_degrees(data):
 def callback_orientation_quaternion(data):
     global is_init_heading
     global heading
-    # This call will also probably need msg_to_quaternion() to convert data into suitable format for transformation.py library
-
-    radians = tf.transformations.euler_from_quaternion(data)
+    radians = tf.transformations.euler_from_quaternion(msg_to_quaternion(data))
     heading = degrees(radians[2])
     is_init_heading = True
 
-- 
2.43.0

