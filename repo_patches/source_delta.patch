From ff562824317e087148f2ef9718c3aa01186a90f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 01/26] fix: small-angle bias coupling in the transition matrix
 used integer division

---
 src/filter/inekf/propagation/imu_propagation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index abb038c..33fa43e 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -307,8 +307,8 @@ Eigen::MatrixXd ImuPropagation::StateTransitionMatrix(const Eigen::Vector3d& w,
   /// TODO: Get better approximation using taylor series when theta < tol
   const double tol = 1e-6;
   if (theta < tol) {
-    Phi25L = (1 / 2) * ax * dt2;
-    Phi35L = (1 / 6) * ax * dt3;
+    Phi25L = 0.5 * ax * dt2;
+    Phi35L = (1.0 / 6.0) * ax * dt3;
   }
 
   // Fill out analytical state transition matrices
-- 
2.43.0


From ebed70903e55a89e59c44c39a5b5d02a684a7d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 02/26] fix: static bias initialization over zero samples
 produced NaN biases

---
 src/filter/inekf/propagation/imu_propagation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 33fa43e..d98e7d0 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -460,6 +460,9 @@ void ImuPropagation::InitImuBias() {
 
     // Set this measurement to be the previous measurement
     prev_imu_measurement_ = imu_measurement;
+  } else if (bias_init_vec_.empty()) {
+    // No samples were requested, keep the priors
+    bias_initialized_ = true;
   } else {
     // Compute average bias of stored data
     Eigen::Matrix<double, 6, 1> avg = Eigen::Matrix<double, 6, 1>::Zero();
-- 
2.43.0


From 54ddd03fda6f6d123c30948efdcf73f0f9e1419e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 03/26] fix: initialization checked the shared buffers for
 emptiness without holding their locks

---
 .../inekf/correction/legged_kinematics_correction.cpp       | 6 +++---
 src/filter/inekf/correction/velocity_correction.cpp         | 6 +++---
 src/filter/inekf/propagation/imu_propagation.cpp            | 3 ++-
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/filter/inekf/correction/legged_kinematics_correction.cpp b/src/filter/inekf/correction/legged_kinematics_correction.cpp
index 053f3d1..edc9fa3 100644
--- a/src/filter/inekf/correction/legged_kinematics_correction.cpp
+++ b/src/filter/inekf/correction/legged_kinematics_correction.cpp
@@ -259,12 +259,12 @@ bool LeggedKinematicsCorrection::initialize(RobotState& state) {
 
   // Get measurement from sensor data buffer
   // Do not initialize if the buffer is emptys
-  while (sensor_data_buffer_ptr_->empty()) {
+  sensor_data_buffer_mutex_ptr_.get()->lock();
+  if (sensor_data_buffer_ptr_->empty()) {
     // std::cout << "Waiting for leg encoder data..." << std::endl;
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
-
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   // Get the lates measurement
   while (sensor_data_buffer_ptr_->size() > 1) {
     // std::cout << "Discarding old sensor data..." << std::endl;
diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 5e7f3f3..9eb3410 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -150,12 +150,12 @@ bool VelocityCorrection::initialize(RobotState& state) {
 
   // Get measurement from sensor data buffer
   // Do not initialize if the buffer is emptys
-  while (sensor_data_buffer_ptr_->empty()) {
+  sensor_data_buffer_mutex_ptr_.get()->lock();
+  if (sensor_data_buffer_ptr_->empty()) {
     // std::cout << "Waiting for velocity related encoder data..." << std::endl;
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
-
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   // Get the latest measurement
   while (sensor_data_buffer_ptr_->size() > 1) {
     // std::cout << "Discarding old sensor data..." << std::endl;
diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index d98e7d0..5604329 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -493,10 +493,11 @@ const bool ImuPropagation::get_bias_initialized() const {
 // IMU propagation initialization for robot state
 bool ImuPropagation::set_initial_state(RobotState& state) {
   // Do not initialize if the buffer is emptys
+  sensor_data_buffer_mutex_ptr_.get()->lock();
   if (sensor_data_buffer_ptr_->empty()) {
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   const ImuMeasurementPtr imu_measurement = sensor_data_buffer_ptr_->front();
   sensor_data_buffer_ptr_->pop();
   sensor_data_buffer_mutex_ptr_.get()->unlock();
-- 
2.43.0


From b3553819cc1ced71a92a78f4b279c4aa61237c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 04/26] fix: initial velocity ignored the sensor rotation and
 scale

---
 src/filter/inekf/correction/velocity_correction.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 9eb3410..c399871 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -166,7 +166,8 @@ bool VelocityCorrection::initialize(RobotState& state) {
   sensor_data_buffer_mutex_ptr_.get()->unlock();
 
   // Apply the rotation to map the body velocity to the world frame
-  state.set_velocity(state.get_rotation() * measured_velocity->get_velocity());
+  state.set_velocity(state.get_rotation() * R_vel2body_ * velocity_scale_
+                     * measured_velocity->get_velocity());
   state.set_time(measured_velocity->get_time());
   return true;
 }
-- 
2.43.0


From da3da2c46d75ebdf70343b62ea421537c60d68ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 05/26] fix: initial body angular velocity was left in the IMU
 frame with its bias

---
 src/filter/inekf/propagation/imu_propagation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 5604329..78da0fb 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -513,7 +513,8 @@ bool ImuPropagation::set_initial_state(RobotState& state) {
 
   state.set_rotation(R0);
   state.set_position(p0);
-  state.set_body_angular_velocity(imu_measurement->get_angular_velocity());
+  state.set_body_angular_velocity(
+      R_imu2body_ * imu_measurement->get_angular_velocity() - bg0_);
 
   // Set the initial bias
   state.set_gyroscope_bias(bg0_);
-- 
2.43.0


From 3422483bbb9acf47e6d0490a5b13ff3fc722b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 06/26] fix: augmenting the state dropped the process noise of
 earlier contacts

---
 src/state/robot_state.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 88c203c..fb3d944 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -148,12 +148,13 @@ int RobotState::add_aug_state(const Eigen::Vector3d& aug,
   int dimTheta = this->dimTheta();
   Eigen::MatrixXd Qc_aug = Eigen::MatrixXd::Zero(dimQc + 3, dimQc + 3);
 
-  Qc_aug.topLeftCorner(this->dimX(), this->dimX())
-      = this->Qc_.topLeftCorner(this->dimX(), this->dimX());
-  Qc_aug.bottomLeftCorner(dimTheta, this->dimX())
-      = this->Qc_.bottomLeftCorner(dimTheta, this->dimX());
-  Qc_aug.topRightCorner(this->dimX(), dimTheta)
-      = this->Qc_.topRightCorner(this->dimX(), dimTheta);
+  int dimMotion = dimQc - dimTheta;
+  Qc_aug.topLeftCorner(dimMotion, dimMotion)
+      = this->Qc_.topLeftCorner(dimMotion, dimMotion);
+  Qc_aug.bottomLeftCorner(dimTheta, dimMotion)
+      = this->Qc_.bottomLeftCorner(dimTheta, dimMotion);
+  Qc_aug.topRightCorner(dimMotion, dimTheta)
+      = this->Qc_.topRightCorner(dimMotion, dimTheta);
   Qc_aug.bottomRightCorner(dimTheta, dimTheta)
       = this->Qc_.bottomRightCorner(dimTheta, dimTheta);
   Qc_aug.block<3, 3>(dimQc - dimTheta, dimQc - dimTheta) = noise_cov;
-- 
2.43.0


From ba073914a57edc45b6e7f912c336db7b4faba9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 07/26] fix: bias covariance accessors addressed a contact
 block of augmented states

---
 src/state/robot_state.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index fb3d944..dd627f4 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -120,10 +120,12 @@ const Eigen::Matrix3d RobotState::get_position_covariance() const {
   return P_.block<3, 3>(6, 6);
 }
 const Eigen::Matrix3d RobotState::get_gyroscope_bias_covariance() const {
-  return P_.block<3, 3>(9, 9);
+  return P_.block<3, 3>(this->dimP() - this->dimTheta(),
+                        this->dimP() - this->dimTheta());
 }
 const Eigen::Matrix3d RobotState::get_accelerometer_bias_covariance() const {
-  return P_.block<3, 3>(12, 12);
+  return P_.block<3, 3>(this->dimP() - this->dimTheta() + 3,
+                        this->dimP() - this->dimTheta() + 3);
 }
 
 const double RobotState::get_time() const { return t_; }
@@ -314,10 +316,12 @@ void RobotState::set_position_covariance(const Eigen::Matrix3d& cov) {
   P_.block<3, 3>(6, 6) = cov;
 }
 void RobotState::set_gyroscope_bias_covariance(const Eigen::Matrix3d& cov) {
-  P_.block<3, 3>(9, 9) = cov;
+  P_.block<3, 3>(this->dimP() - this->dimTheta(),
+                        this->dimP() - this->dimTheta()) = cov;
 }
 void RobotState::set_accelerometer_bias_covariance(const Eigen::Matrix3d& cov) {
-  P_.block<3, 3>(12, 12) = cov;
+  P_.block<3, 3>(this->dimP() - this->dimTheta() + 3,
+                        this->dimP() - this->dimTheta() + 3) = cov;
 }
 void RobotState::set_time(const double t) { t_ = t; }
 
-- 
2.43.0


From 70dbfa869c2b73f44cd89d4136f9be7b0f8f702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 08/26] fix: left-invariant correction mapped the covariance
 for the wrong error type

---
 src/filter/inekf/inekf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/inekf/inekf.cpp b/src/filter/inekf/inekf.cpp
index 8e50d9f..fbf4f72 100644
--- a/src/filter/inekf/inekf.cpp
+++ b/src/filter/inekf/inekf.cpp
@@ -122,7 +122,7 @@ void CorrectLeftInvariant(const Eigen::MatrixXd& Z, const Eigen::MatrixXd& H,
   }
 
   // Map from right invariant to left invariant error temporarily
-  if (error_type == ErrorType::LeftInvariant) {
+  if (error_type == ErrorType::RightInvariant) {
     Eigen::MatrixXd AdjInv = Eigen::MatrixXd::Identity(dimP, dimP);
     AdjInv.block(0, 0, dimP - dimTheta, dimP - dimTheta)
         = lie_group::Adjoint_SEK3(state.get_Xinv());
-- 
2.43.0


From 6b5236c11c8ce69b9936b142b7e31b0ddeacb514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 09/26] fix: contact measurements reported as skipped were
 still used

---
 src/filter/inekf/correction/legged_kinematics_correction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/correction/legged_kinematics_correction.cpp b/src/filter/inekf/correction/legged_kinematics_correction.cpp
index edc9fa3..d1b7f68 100644
--- a/src/filter/inekf/correction/legged_kinematics_correction.cpp
+++ b/src/filter/inekf/correction/legged_kinematics_correction.cpp
@@ -82,7 +82,8 @@ bool LeggedKinematicsCorrection::Correct(RobotState& state) {
 
       t_diff = kinematics_measurement->get_time() - state.get_propagate_time();
     }
-  } else if (t_diff > t_diff_thres_) {
+  }
+  if (t_diff > t_diff_thres_) {
     std::cerr
         << std::setprecision(20)
         << "Measurement received in the velocity correction is way faster than "
@@ -92,6 +93,7 @@ bool LeggedKinematicsCorrection::Correct(RobotState& state) {
         << ", this measurement time: " << kinematics_measurement->get_time()
         << ", time diff: " << t_diff << ", set threshold: " << t_diff_thres_
         << std::endl;
+    return false;
   }
 
   state.set_time(kinematics_measurement->get_time());
-- 
2.43.0


From c973c9c1b179bdce9183f9b102ea5961017a1be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 10/26] fix: legged kinematics measurements built from data had
 no type

---
 src/measurement/legged_kinematics.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/measurement/legged_kinematics.cpp b/src/measurement/legged_kinematics.cpp
index 9c78471..037a6a6 100644
--- a/src/measurement/legged_kinematics.cpp
+++ b/src/measurement/legged_kinematics.cpp
@@ -21,7 +21,10 @@ LeggedKinematicsMeasurement::LeggedKinematicsMeasurement(
     const Eigen::Matrix<double, Eigen::Dynamic, 1>& encoders,
     const Eigen::Matrix<double, Eigen::Dynamic, 1>& d_encoders,
     const Eigen::Matrix<bool, Eigen::Dynamic, 1>& contacts)
-    : encoders_(encoders), d_encoders_(d_encoders), contacts_(contacts) {}
+    : Measurement(LEGGED_KINEMATICS),
+      encoders_(encoders),
+      d_encoders_(d_encoders),
+      contacts_(contacts) {}
 
 void LeggedKinematicsMeasurement::set_contact(
     const Eigen::Matrix<bool, Eigen::Dynamic, 1>& contacts) {
-- 
2.43.0


From 1b61046f7ef7920c87a0c4a115be024a473bf398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 11/26] fix: destroying a gyro filter whose thread was never
 started terminated the program

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index c749132..6b9b9b9 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -325,7 +325,9 @@ ImuAngVelEKF::ImuAngVelEKF(const std::string& yaml_filepath)
 // IMU filter destructor
 ImuAngVelEKF::~ImuAngVelEKF() {
   stop_thread_ = true;
-  imu_filter_thread_.join();
+  if (imu_filter_thread_.joinable()) {
+    imu_filter_thread_.join();
+  }
   imu_propagate_input_outfile_.close();
   imu_propagate_outfile_.close();
   imu_ang_vel_outfile_.close();
-- 
2.43.0


From 670ec6c2a2a539913a6e8d61283545a35064accb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 12/26] fix: multi-IMU correction republished the output of
 another IMU for a rejected sample

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 6b9b9b9..eb0fc27 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -574,11 +574,10 @@ void ImuAngVelEKF::SingleImuCorrection() {
 }
 
 void ImuAngVelEKF::MultiImuCorrection() {
-  ImuMeasurementPtr imu_measurement = nullptr;
-  ImuMeasurementPtr fused_ang_imu = nullptr;
-
   // Bias corrected IMU measurements
   for (int i = 0; i < imu_data_buffer_mutex_ptrs_.size(); i++) {
+    ImuMeasurementPtr imu_measurement = nullptr;
+    ImuMeasurementPtr fused_ang_imu = nullptr;
     imu_data_buffer_mutex_ptrs_[i].get()->lock();
     if (imu_data_buffer_ptrs_[i]->empty()) {
       imu_data_buffer_mutex_ptrs_[i].get()->unlock();
-- 
2.43.0


From 4fe162f5e6087979187064e3add6d8467c008d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 13/26] fix: multi-IMU correction never read the first IMU

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index eb0fc27..11df0fb 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -351,11 +351,10 @@ void ImuAngVelEKF::add_imu_correction(
     // For single imu version:
     imu_data_buffer_ptr_ = imu_data_buffer_ptr;
     imu_data_buffer_mutex_ptr_ = imu_data_buffer_mutex_ptr;
-  } else {
-    // For all other versions:
-    imu_data_buffer_ptrs_.push_back(imu_data_buffer_ptr);
-    imu_data_buffer_mutex_ptrs_.push_back(imu_data_buffer_mutex_ptr);
   }
+  // For all other versions:
+  imu_data_buffer_ptrs_.push_back(imu_data_buffer_ptr);
+  imu_data_buffer_mutex_ptrs_.push_back(imu_data_buffer_mutex_ptr);
 }
 
 void ImuAngVelEKF::add_ang_vel_correction(
-- 
2.43.0


From c70f95e2e886176ecf44d23af6aa01355dae2dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 14/26] fix: a single outdated IMU sample blocked the gyro
 filter forever

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 11df0fb..4f53991 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -553,22 +553,22 @@ void ImuAngVelEKF::SingleImuCorrection() {
 
   ImuMeasurementPtr imu_measurement = imu_data_buffer_ptr_.get()->front();
 
-  // Only perform correction step if with data prior to the propagation time
-  // and the time gap is smaller than a threshold
-  /// TODO: double check if we need absolute here?
-  // if (last_propagate_time_ == -1
-  // || last_propagate_time_ - imu_measurement->get_time() <= t_thres_) {
-  if (last_propagate_time_ - imu_measurement->get_time() <= t_thres_
-      && last_propagate_time_ >= imu_measurement->get_time()) {
-    imu_data_buffer_ptr_.get()->pop();
+  // Keep data later than the propagation time in the buffer
+  if (last_propagate_time_ != -1
+      && last_propagate_time_ < imu_measurement->get_time()) {
     imu_data_buffer_mutex_ptr_.get()->unlock();
+    return;
+  }
+  imu_data_buffer_ptr_.get()->pop();
+  imu_data_buffer_mutex_ptr_.get()->unlock();
 
+  // Only perform correction step if the time gap is smaller than a threshold
+  if (last_propagate_time_ == -1
+      || last_propagate_time_ - imu_measurement->get_time() <= t_thres_) {
     auto fused_ang_imu = AngVelFilterCorrectIMU(imu_measurement);
     filtered_imu_data_buffer_mutex_ptr_.get()->lock();
     filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
     filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
-  } else {
-    imu_data_buffer_mutex_ptr_.get()->unlock();
   }
 }
 
-- 
2.43.0


From a88802d86be81e9af0179566a11cccd141a0fc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 15/26] fix: gyro filter built from buffers never set its bias
 initialization size

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 4f53991..3107c88 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -90,6 +90,10 @@ ImuAngVelEKF::ImuAngVelEKF(
         << ang_vel_and_bias_est_(5) << "]" << std::endl;
   }
 
+  init_bias_size_ = config_["settings"]["init_bias_size"]
+                        ? config_["settings"]["init_bias_size"].as<int>()
+                        : 250;
+
   // Set the noise parameters
   double ang_vel_std = config_["noises"]["ang_vel_std"]
                            ? config_["noises"]["ang_vel_std"].as<double>()
-- 
2.43.0


From 1334be10d09ff6c7beefdfe26b37264c457a7815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:41 +0000
Subject: [PATCH 16/26] fix: wheel odometry started its poses from an all-ones
 matrix

---
 baselines/src/wheel_odometry/wheel_odometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baselines/src/wheel_odometry/wheel_odometry.cpp b/baselines/src/wheel_odometry/wheel_odometry.cpp
index a6b0bfa..bfc39b7 100644
--- a/baselines/src/wheel_odometry/wheel_odometry.cpp
+++ b/baselines/src/wheel_odometry/wheel_odometry.cpp
@@ -119,7 +119,7 @@ void WheelOdometry::Integrate(Eigen::Vector3d v_mea, Eigen::Vector3d w,
   Eigen::Vector3d phi = w * dt;
   Eigen::Matrix3d exp_omega = Gamma_SO3(phi, 0);
 
-  Eigen::MatrixXd X = Eigen::MatrixXd::Ones(5, 5);
+  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(5, 5);
   X.block<3, 3>(0, 0) = R * exp_omega;
   X.block<3, 1>(0, 3) = R * v_mea;
   X.block<3, 1>(0, 4) = p + R * v_mea * dt;
-- 
2.43.0


From 8b982fe355b16244e825b029092c72bf891ceca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 17/26] fix: inverse of a larger extended pose dropped its
 further columns

---
 src/math/se_k_3.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/math/se_k_3.cpp b/src/math/se_k_3.cpp
index 891492c..a338777 100644
--- a/src/math/se_k_3.cpp
+++ b/src/math/se_k_3.cpp
@@ -63,9 +63,12 @@ SEK3 SEK3::operator*(const SEK3& X) {
 // methods
 SEK3 SEK3::inverse() {
   SEK3 Y;
-  Y.set_R(this->get_R().transpose());
-  Y.set_p(-this->get_R().transpose() * this->get_p());
-  Y.set_v(-this->get_R().transpose() * this->get_v());
+  int dim = this->get_dim();
+  Eigen::Matrix3d RT = this->get_R().transpose();
+  Eigen::MatrixXd Xinv = Eigen::MatrixXd::Identity(dim, dim);
+  Xinv.block(0, 0, 3, 3) = RT;
+  Xinv.block(0, 3, 3, dim - 3) = -RT * X_.block(0, 3, 3, dim - 3);
+  Y.set_X(Xinv);
   Y.set_K(this->get_K());
   return Y;
 }
-- 
2.43.0


From bad8a6212248b31c499ef99c9e15dc557f632671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 18/26] fix: augmented bias accessors ignored which bias was
 asked for

---
 src/state/robot_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index dd627f4..70e61f2 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -295,7 +295,7 @@ void RobotState::add_aug_bias(const Eigen::Vector3d& baug) {
 
 
 void RobotState::del_aug_bias(int matrix_idx) {
-  int start = matrix_idx - 5 + 6;
+  int start = 6 + 3 * (matrix_idx - 5);
   Theta_.block(start, 0, Theta_.rows() - start - 3, 1)
       = Theta_.block(start + 3, 0, Theta_.rows() - start - 3, 1);
   Theta_.conservativeResize(Theta_.rows() - 3);
@@ -303,7 +303,7 @@ void RobotState::del_aug_bias(int matrix_idx) {
 
 
 const Eigen::Vector3d RobotState::get_aug_bias(int matrix_idx) {
-  return Theta_.block<3, 1>(Theta_.rows() - 3, 0);
+  return Theta_.block<3, 1>(6 + 3 * (matrix_idx - 5), 0);
 }
 
 void RobotState::set_rotation_covariance(const Eigen::Matrix3d& cov) {
-- 
2.43.0


From 1fbe4b4cf6f89581f9238dcc43245322adfcfbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 19/26] fix: a velocity measurement behind an outdated one was
 used before it was due

---
 src/filter/inekf/correction/velocity_correction.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index c399871..d72a8ed 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -105,10 +105,13 @@ bool VelocityCorrection::Correct(RobotState& state) {
         return false;
       }
       measured_velocity = sensor_data_buffer_ptr_->front();
+      t_diff = measured_velocity->get_time() - state.get_propagate_time();
+      if (t_diff >= 0) {
+        sensor_data_buffer_mutex_ptr_->unlock();
+        return false;
+      }
       sensor_data_buffer_ptr_->pop();
       sensor_data_buffer_mutex_ptr_->unlock();
-
-      t_diff = measured_velocity->get_time() - state.get_propagate_time();
     }
   }
 
-- 
2.43.0


From b9cd90b6ddf3247d10f8927791c9543edafb4e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 20/26] fix: gyro filter bias initialization over zero samples
 produced NaN biases

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 3107c88..6abea9d 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -504,7 +504,9 @@ void ImuAngVelEKF::InitializeFilter() {
     for (int i = 0; i < bias_init_vec_.size(); ++i) {
       avg = (avg + bias_init_vec_[i]).eval();
     }
-    avg = (avg / bias_init_vec_.size()).eval();
+    if (!bias_init_vec_.empty()) {
+      avg = (avg / bias_init_vec_.size()).eval();
+    }
     std::cout << "Biases in the gyro filter are initialized to: "
               << avg.transpose() << std::endl;
 
-- 
2.43.0


From 099b00ac5b38476a86db553e3811c649f830ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:11 +0000
Subject: [PATCH 21/26] fix: clearing a gyro filter that lacks one kind of
 input dereferenced null

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 6abea9d..b398acc 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -875,18 +875,22 @@ ImuAngVelEKF::get_filtered_imu_data_buffer_and_mutex_ptr() {
 
 void ImuAngVelEKF::clear() {
   // Clear Imu data buffer
-  imu_data_buffer_mutex_ptr_.get()->lock();
-  while (!imu_data_buffer_ptr_->empty()) {
-    imu_data_buffer_ptr_->pop();
+  if (imu_data_buffer_ptr_) {
+    imu_data_buffer_mutex_ptr_.get()->lock();
+    while (!imu_data_buffer_ptr_->empty()) {
+      imu_data_buffer_ptr_->pop();
+    }
+    imu_data_buffer_mutex_ptr_.get()->unlock();
   }
-  imu_data_buffer_mutex_ptr_.get()->unlock();
 
   // Clear angular velocity data buffer
-  ang_vel_data_buffer_mutex_ptr_.get()->lock();
-  while (!ang_vel_data_buffer_ptr_->empty()) {
-    ang_vel_data_buffer_ptr_->pop();
+  if (ang_vel_data_buffer_ptr_) {
+    ang_vel_data_buffer_mutex_ptr_.get()->lock();
+    while (!ang_vel_data_buffer_ptr_->empty()) {
+      ang_vel_data_buffer_ptr_->pop();
+    }
+    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
   }
-  ang_vel_data_buffer_mutex_ptr_.get()->unlock();
 
   // Clear filtered_imu_data_buffer
   filtered_imu_data_buffer_mutex_ptr_.get()->lock();
-- 
2.43.0


From 3c23848c201371f9302d906093395c45809c8f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:23 +0000
Subject: [PATCH 22/26] fix: a default-constructed estimator had an
 indeterminate logger flag and covariances

---
 include/drift/estimator/inekf_estimator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/drift/estimator/inekf_estimator.h b/include/drift/estimator/inekf_estimator.h
index 192804c..d4ea871 100644
--- a/include/drift/estimator/inekf_estimator.h
+++ b/include/drift/estimator/inekf_estimator.h
@@ -292,7 +292,7 @@ class InekfEstimator {
   std::shared_ptr<std::mutex>
       robot_state_queue_mutex_ptr_;    // Mutex of the robot
                                        // state queue
-  bool enable_pose_logger_;            // Boolean value indicating whether
+  bool enable_pose_logger_ = false;    // Boolean value indicating whether
                                        // the filter should log the pose
   std::ofstream outfile_;              // Output file stream for pose logger
   std::ofstream vel_outfile_;          // Output file stream for velocity logger
@@ -306,9 +306,9 @@ class InekfEstimator {
   RobotStateQueuePtr robot_state_log_queue_ptr_;    // Pointer to the robot
                                                     // state log queue
 
-  double rotation_cov_val_;                  // Covariance value for rotation
-  double velocity_cov_val_;                  // Covariance value for velocity
-  double position_cov_val_;                  // Covariance value for position
+  double rotation_cov_val_ = 0.03;           // Covariance value for rotation
+  double velocity_cov_val_ = 0.01;           // Covariance value for velocity
+  double position_cov_val_ = 0.00001;        // Covariance value for position
   std::atomic<bool> stop_signal_ = false;    // Stop signal for pose logger
   bool enabled_slip_estimator_ = false;      // Slip estimator enabled
   std::string pose_log_file_ = "";           // Pose log file path
-- 
2.43.0


From fd8ab8d9305f25ded064b491755da9d5b083aadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 23/26] fix: bias initialization and state initialization used
 different orientations for the same sample

---
 src/filter/inekf/propagation/imu_propagation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 78da0fb..40ecd58 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -444,11 +444,11 @@ void ImuPropagation::InitImuBias() {
     a = R_imu2body_ * a - a_compensate;
 
 
-    // TODO: double check and fix this
+    // Orientation the state would be initialized with by this measurement
     Eigen::Matrix3d R;
     if (use_imu_ori_to_init_) {
       Eigen::Quaternion<double> quat = imu_measurement->get_quaternion();
-      R = R_imu2body_ * quat.toRotationMatrix();
+      R = quat.toRotationMatrix();
     } else {
       R = Eigen::Matrix3d::Identity();
     }
-- 
2.43.0


From 6baf714accef1d47167ce24d91844fd585613c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 24/26] fix: wheel odometry discarded the second pair of
 measurements when the first was taken at time zero

---
 baselines/include/wheel_odometry/wheel_odometry.h | 1 +
 baselines/src/wheel_odometry/wheel_odometry.cpp   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/baselines/include/wheel_odometry/wheel_odometry.h b/baselines/include/wheel_odometry/wheel_odometry.h
index c65fe46..110c926 100644
--- a/baselines/include/wheel_odometry/wheel_odometry.h
+++ b/baselines/include/wheel_odometry/wheel_odometry.h
@@ -51,6 +51,7 @@ class WheelOdometry {
   RobotState state_;
 
   double prev_t_ = 0.0;
+  bool has_prev_t_ = false;
   double last_pub_t_ = 0.0;
 
   VelocityQueuePtr vel_queue_ptr_;
diff --git a/baselines/src/wheel_odometry/wheel_odometry.cpp b/baselines/src/wheel_odometry/wheel_odometry.cpp
index bfc39b7..708aee4 100644
--- a/baselines/src/wheel_odometry/wheel_odometry.cpp
+++ b/baselines/src/wheel_odometry/wheel_odometry.cpp
@@ -85,7 +85,8 @@ void WheelOdometry::RunOnce() {
     // Get the time stamp of the measurement
     double t = vel_measurement->get_time();
 
-    if (prev_t_ == 0) {
+    if (!has_prev_t_) {
+      has_prev_t_ = true;
       prev_t_ = t;
       state_.set_time(t);
       return;
-- 
2.43.0


From 6f113f6f18217169afddb08f4879feb2970b709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 25/26] fix: gyro bias to velocity and position transition lost
 all digits for slow rotation

---
 src/filter/inekf/propagation/imu_propagation.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 40ecd58..c48363c 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -304,11 +304,13 @@ Eigen::MatrixXd ImuPropagation::StateTransitionMatrix(const Eigen::Vector3d& w,
                  * (wx2 * ax * wx2));
 
 
-  /// TODO: Get better approximation using taylor series when theta < tol
-  const double tol = 1e-6;
-  if (theta < tol) {
-    Phi25L = 0.5 * ax * dt2;
-    Phi35L = (1.0 / 6.0) * ax * dt3;
+  // The closed forms above lose all their digits for small rotation angles:
+  // use their Taylor series to first order in the rotation instead
+  const double tol = 1e-3;
+  if (thetadt2 < tol * tol) {
+    Phi25L = 0.5 * ax * dt2 - (1.0 / 6.0) * (wx * ax + ax * wx) * dt3;
+    Phi35L = (1.0 / 6.0) * ax * dt3
+             - (1.0 / 24.0) * (2 * wx * ax + ax * wx) * dt3 * dt;
   }
 
   // Fill out analytical state transition matrices
-- 
2.43.0


From 91db512af48c918b4f90f786ce45cae711deeb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:01 +0000
Subject: [PATCH 26/26] Add loop annotations for the verification build

---
 include/drift/utils/loop_invariant.h              | 15 +++++++++++++++
 src/estimator/inekf_estimator.cpp                 |  3 +++
 .../correction/legged_kinematics_correction.cpp   |  4 ++++
 .../inekf/correction/velocity_correction.cpp      |  4 ++++
 src/filter/inekf/propagation/imu_propagation.cpp  |  2 ++
 src/imu_filter/imu_ang_vel_ekf.cpp                |  4 ++++
 6 files changed, 32 insertions(+)
 create mode 100644 include/drift/utils/loop_invariant.h

diff --git a/include/drift/utils/loop_invariant.h b/include/drift/utils/loop_invariant.h
new file mode 100644
index 0000000..a28b321
--- /dev/null
+++ b/include/drift/utils/loop_invariant.h
@@ -0,0 +1,15 @@
+/**
+ *  @file   loop_invariant.h
+ *  @brief  Names the loops over sensor buffers, and the variables these loops
+ *  change, for the verification build (DRIFT_VERIFY), which provides the macro.
+ *  In every other build the annotations expand to nothing.
+ **/
+
+#ifndef UTILS_LOOP_INVARIANT_H
+#define UTILS_LOOP_INVARIANT_H
+
+#ifndef DRIFT_VERIFY
+#define DRIFT_LOOP_INVARIANT(...)
+#endif
+
+#endif    // UTILS_LOOP_INVARIANT_H
diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index 9dad73d..c220b54 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -12,6 +12,7 @@
  **/
 
 #include "drift/estimator/inekf_estimator.h"
+#include "drift/utils/loop_invariant.h"
 
 namespace estimator {
 InekfEstimator::InekfEstimator()
@@ -303,6 +304,7 @@ void InekfEstimator::clear() {
   // Clear state queue
   robot_state_queue_mutex_ptr_.get()->lock();
   while (!robot_state_queue_ptr_.get()->empty()) {
+    DRIFT_LOOP_INVARIANT("estimator clear states");
     robot_state_queue_ptr_.get()->pop();
   }
   robot_state_queue_mutex_ptr_.get()->unlock();
@@ -314,6 +316,7 @@ void InekfEstimator::clear() {
   // Clear current log queue and open a new file for logging
   robot_state_log_queue_mutex_.lock();
   while (!robot_state_log_queue_ptr_.get()->empty()) {
+    DRIFT_LOOP_INVARIANT("estimator clear log");
     robot_state_log_queue_ptr_.get()->pop();
   }
   robot_state_log_queue_mutex_.unlock();
diff --git a/src/filter/inekf/correction/legged_kinematics_correction.cpp b/src/filter/inekf/correction/legged_kinematics_correction.cpp
index d1b7f68..c73a9be 100644
--- a/src/filter/inekf/correction/legged_kinematics_correction.cpp
+++ b/src/filter/inekf/correction/legged_kinematics_correction.cpp
@@ -1,6 +1,7 @@
 // TODO add description
 
 #include "drift/filter/inekf/correction/legged_kinematics_correction.h"
+#include "drift/utils/loop_invariant.h"
 
 using namespace std;
 using namespace math::lie_group;
@@ -71,6 +72,7 @@ bool LeggedKinematicsCorrection::Correct(RobotState& state) {
       = kinematics_measurement->get_time() - state.get_propagate_time();
   if (t_diff < -t_diff_thres_) {
     while (t_diff < -t_diff_thres_) {
+      DRIFT_LOOP_INVARIANT("legged discard", t_diff, kinematics_measurement);
       sensor_data_buffer_mutex_ptr_->lock();
       if (sensor_data_buffer_ptr_->empty()) {
         sensor_data_buffer_mutex_ptr_->unlock();
@@ -269,6 +271,7 @@ bool LeggedKinematicsCorrection::initialize(RobotState& state) {
   }
   // Get the lates measurement
   while (sensor_data_buffer_ptr_->size() > 1) {
+    DRIFT_LOOP_INVARIANT("legged keep last");
     // std::cout << "Discarding old sensor data..." << std::endl;
     sensor_data_buffer_ptr_->pop();
   }
@@ -288,6 +291,7 @@ bool LeggedKinematicsCorrection::initialize(RobotState& state) {
 void LeggedKinematicsCorrection::clear() {
   sensor_data_buffer_mutex_ptr_.get()->lock();
   while (!sensor_data_buffer_ptr_->empty()) {
+    DRIFT_LOOP_INVARIANT("legged clear");
     sensor_data_buffer_ptr_->pop();
   }
   sensor_data_buffer_mutex_ptr_.get()->unlock();
diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index d72a8ed..6b0d82f 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -12,6 +12,7 @@
  **/
 
 #include "drift/filter/inekf/correction/velocity_correction.h"
+#include "drift/utils/loop_invariant.h"
 
 using namespace std;
 using namespace math::lie_group;
@@ -99,6 +100,7 @@ bool VelocityCorrection::Correct(RobotState& state) {
 
   if (t_diff < -t_diff_thres_) {
     while (t_diff < -t_diff_thres_) {
+      DRIFT_LOOP_INVARIANT("velocity discard", t_diff, measured_velocity);
       sensor_data_buffer_mutex_ptr_->lock();
       if (sensor_data_buffer_ptr_->empty()) {
         sensor_data_buffer_mutex_ptr_->unlock();
@@ -161,6 +163,7 @@ bool VelocityCorrection::initialize(RobotState& state) {
   }
   // Get the latest measurement
   while (sensor_data_buffer_ptr_->size() > 1) {
+    DRIFT_LOOP_INVARIANT("velocity keep last");
     // std::cout << "Discarding old sensor data..." << std::endl;
     sensor_data_buffer_ptr_->pop();
   }
@@ -178,6 +181,7 @@ bool VelocityCorrection::initialize(RobotState& state) {
 void VelocityCorrection::clear() {
   sensor_data_buffer_mutex_ptr_->lock();
   while (!sensor_data_buffer_ptr_->empty()) {
+    DRIFT_LOOP_INVARIANT("velocity clear");
     sensor_data_buffer_ptr_->pop();
   }
   sensor_data_buffer_mutex_ptr_->unlock();
diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index c48363c..3e04ca4 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -18,6 +18,7 @@
  **/
 
 #include "drift/filter/inekf/propagation/imu_propagation.h"
+#include "drift/utils/loop_invariant.h"
 
 
 using namespace std;
@@ -541,6 +542,7 @@ bool ImuPropagation::set_initial_state(RobotState& state) {
 void ImuPropagation::clear() {
   sensor_data_buffer_mutex_ptr_.get()->lock();
   while (!sensor_data_buffer_ptr_->empty()) {
+    DRIFT_LOOP_INVARIANT("propagation clear");
     sensor_data_buffer_ptr_->pop();
   }
   sensor_data_buffer_mutex_ptr_.get()->unlock();
diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index b398acc..9db0de5 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -13,6 +13,7 @@
  **/
 
 #include "drift/imu_filter/imu_ang_vel_ekf.h"
+#include "drift/utils/loop_invariant.h"
 
 
 using namespace std;
@@ -878,6 +879,7 @@ void ImuAngVelEKF::clear() {
   if (imu_data_buffer_ptr_) {
     imu_data_buffer_mutex_ptr_.get()->lock();
     while (!imu_data_buffer_ptr_->empty()) {
+      DRIFT_LOOP_INVARIANT("filter clear imu");
       imu_data_buffer_ptr_->pop();
     }
     imu_data_buffer_mutex_ptr_.get()->unlock();
@@ -887,6 +889,7 @@ void ImuAngVelEKF::clear() {
   if (ang_vel_data_buffer_ptr_) {
     ang_vel_data_buffer_mutex_ptr_.get()->lock();
     while (!ang_vel_data_buffer_ptr_->empty()) {
+      DRIFT_LOOP_INVARIANT("filter clear rates");
       ang_vel_data_buffer_ptr_->pop();
     }
     ang_vel_data_buffer_mutex_ptr_.get()->unlock();
@@ -895,6 +898,7 @@ void ImuAngVelEKF::clear() {
   // Clear filtered_imu_data_buffer
   filtered_imu_data_buffer_mutex_ptr_.get()->lock();
   while (!filtered_imu_data_buffer_ptr_->empty()) {
+    DRIFT_LOOP_INVARIANT("filter clear output");
     filtered_imu_data_buffer_ptr_->pop();
   }
   filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
-- 
2.43.0

