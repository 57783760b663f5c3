From 0517857b16fbd428643ec9cececfb6fda361fd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 01/39] fix: report covariance of a block outside the problem
 as an exception

computeCovariance() handed blocks that are not part of the problem straight to
Ceres, which ends the process (e.g. PnP without correspondences).
---
 .../rct_optimizations/covariance_analysis.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index da77aa2..feb3f6e 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -1,6 +1,21 @@
 ﻿#include <rct_optimizations/covariance_analysis.h>
 #include <sstream>
 
+namespace
+{
+/**
+ * @brief Gets the size of a parameter block, reporting a block that is not part of the problem (e.g., because there was
+ * no observation of it) as an exception instead of aborting the process
+ */
+int getParameterBlockSize(const ceres::Problem& problem, const double* block)
+{
+  if (!problem.HasParameterBlock(block))
+    throw rct_optimizations::CovarianceException("Parameter block for which the covariance was requested is not part "
+                                                 "of the problem");
+  return problem.ParameterBlockSize(block);
+}
+}  // namespace
+
 namespace rct_optimizations
 {
 Eigen::MatrixXd computeCorrelationsFromCovariance(const Eigen::MatrixXd& covariance_matrix)
@@ -110,7 +125,7 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
   std::map<const double*, std::vector<std::string>> dummy_param_names;
   for (std::size_t block_index = 0; block_index < parameter_blocks.size(); block_index++)
   {
-    int size = problem.ParameterBlockSize(parameter_blocks[block_index]);
+    int size = getParameterBlockSize(problem, parameter_blocks[block_index]);
     std::vector<std::string> block_names;
     for (int i = 0; i < size; i++)
     {
@@ -153,7 +168,7 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
   std::vector<std::string> tangent_space_labels;
   for (const double* b : parameter_blocks)
   {
-    int block_size = problem.ParameterBlockSize(b);
+    int block_size = getParameterBlockSize(problem, b);
     if (static_cast<std::size_t>(block_size) != param_names.at(b).size())
     {
       std::stringstream ss;
-- 
2.43.0


From bed59bf71f890d30d1eb89811ffc36e845c3b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 02/39] fix: multi static camera calibration with a camera
 without observations

A camera that observed nothing has no parameter block in the problem; asking
for its covariance ended the process. Report the covariance of the others.
---
 .../extrinsic_multi_static_camera.cpp                 | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp b/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp
index fe1d98d..39d0413 100644
--- a/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp
+++ b/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp
@@ -117,11 +117,13 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraM
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
 
-  // collect parameter blocks so that order is consistent with labels
-  std::vector<const double*> param_blocks(internal_camera_to_base.size());
+  // collect parameter blocks so that order is consistent with labels; cameras without observations are not part of the
+  // problem and have no covariance
+  std::vector<const double*> param_blocks;
   for (std::size_t c = 0; c < internal_camera_to_base.size(); c++)
   {
-    param_blocks[c] = internal_camera_to_base[c].values.data();
+    if (problem.HasParameterBlock(internal_camera_to_base[c].values.data()))
+      param_blocks.push_back(internal_camera_to_base[c].values.data());
   }
   param_blocks.push_back(internal_wrist_to_target.values.data());
 
@@ -130,6 +132,9 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraM
   // compose labels "camera_mount_to_camera_x", etc.
   for (std::size_t index_camera = 0; index_camera < internal_camera_to_base.size(); index_camera++)
   {
+    if (!problem.HasParameterBlock(internal_camera_to_base[index_camera].values.data()))
+      continue;
+
     std::vector<std::string> labels_base_to_camera;
     for (auto label_isometry : params.labels_isometry3d)
     {
-- 
2.43.0


From 28083c86467bfe6ef8a61716cbc065b79ee54a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 03/39] fix: PnP from a guess without rotation

The derivative of the norm of a zero angle-axis vector is not a number, so both
PnP solvers failed whenever the guess (or an iterate) had no rotation.  Use the
same rotation as the other optimisations, which handles this case.
---
 .../src/rct_optimizations/pnp.cpp             | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/pnp.cpp b/rct_optimizations/src/rct_optimizations/pnp.cpp
index db20503..4411a26 100644
--- a/rct_optimizations/src/rct_optimizations/pnp.cpp
+++ b/rct_optimizations/src/rct_optimizations/pnp.cpp
@@ -20,18 +20,14 @@ public:
                   const T* const cam_to_tgt_translation_ptr,
                   T* const residual) const
   {
-    using Isometry3 = Eigen::Transform<T, 3, Eigen::Isometry>;
     using Vector3 = Eigen::Matrix<T, 3, 1>;
     using Vector2 = Eigen::Matrix<T, 2, 1>;
 
-    Eigen::Map<const Vector3> cam_to_tgt_angle_axis(cam_to_tgt_angle_axis_ptr);
-    Eigen::Map<const Vector3> cam_to_tgt_translation(cam_to_tgt_translation_ptr);
-    Isometry3 camera_to_target = Isometry3::Identity();
-    camera_to_target = Eigen::Translation<T, 3>(cam_to_tgt_translation) *
-                       Eigen::AngleAxis<T>(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());
-
     // Transform points into camera coordinates
-    Vector3 camera_pt = camera_to_target * in_target_.cast<T>();
+    const Vector3 target_pt = in_target_.cast<T>();
+    Vector3 camera_pt;
+    rct_optimizations::transformPoint(
+        cam_to_tgt_angle_axis_ptr, cam_to_tgt_translation_ptr, target_pt.data(), camera_pt.data());
 
     Vector2 xy_image = projectPoint(intr_, camera_pt);
 
@@ -59,17 +55,13 @@ public:
                   const T* const cam_to_tgt_translation_ptr,
                   T* const residual) const
   {
-    using Isometry3 = Eigen::Transform<T, 3, Eigen::Isometry>;
     using Vector3 = Eigen::Matrix<T, 3, 1>;
 
-    Eigen::Map<const Vector3> cam_to_tgt_angle_axis(cam_to_tgt_angle_axis_ptr);
-    Eigen::Map<const Vector3> cam_to_tgt_translation(cam_to_tgt_translation_ptr);
-    Isometry3 camera_to_target = Isometry3::Identity();
-    camera_to_target = Eigen::Translation<T, 3>(cam_to_tgt_translation) *
-                       Eigen::AngleAxis<T>(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());
-
     // Transform points into camera coordinates
-    Vector3 camera_pt = camera_to_target * in_target_.cast<T>();
+    const Vector3 target_pt = in_target_.cast<T>();
+    Vector3 camera_pt;
+    rct_optimizations::transformPoint(
+        cam_to_tgt_angle_axis_ptr, cam_to_tgt_translation_ptr, target_pt.data(), camera_pt.data());
 
     residual[0] = camera_pt[0] - in_image_.x();
     residual[1] = camera_pt[1] - in_image_.y();
-- 
2.43.0


From 65c904e4f121b27490b1bb748cc90e80177accd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 04/39] fix: intrinsic calibration with images in which the
 target was not located

Such images have no pose in the problem; asking for its covariance ended the
process. Also return the located target poses and honour the caller's extrinsic
guesses, both of which were declared but never used.
---
 .../rct_optimizations/experimental/camera_intrinsic.h  |  3 ++-
 .../src/rct_optimizations/camera_intrinsic.cpp         | 10 ++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
index c15c0ab..2899f98 100644
--- a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
+++ b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
@@ -11,7 +11,7 @@ struct IntrinsicEstimationProblem
 {
   std::vector<Correspondence2D3D::Set> image_observations;
   CameraIntrinsics intrinsics_guess;
-  bool use_extrinsic_guesses;
+  bool use_extrinsic_guesses = false;
   std::vector<Eigen::Isometry3d> extrinsic_guesses;
 
   std::string label_extr = "pose";
@@ -30,6 +30,7 @@ struct IntrinsicEstimationResult
   CameraIntrinsics intrinsics;
   std::array<double, 5> distortions;
 
+  /** @brief Poses of the target in the camera frame, for the images in which the target could be located (in order) */
   std::vector<Eigen::Isometry3d> target_transforms;
 
   CovarianceResult covariance;
diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index c458bad..3aab36a 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -197,7 +197,9 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
   {
     try
     {
-      internal_poses[i] = solvePnP(params.intrinsics_guess, params.image_observations[i], guessInitialPose());
+      const Pose6d guess =
+          params.use_extrinsic_guesses ? poseEigenToCal(params.extrinsic_guesses.at(i)) : guessInitialPose();
+      internal_poses[i] = solvePnP(params.intrinsics_guess, params.image_observations[i], guess);
       valid_idx.push_back(i);
     }
     catch (const std::exception&)
@@ -235,7 +237,8 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
   param_labels[internal_intrinsics_data.data()] =
       std::vector<std::string>(params.labels_intrinsic_params.begin(), params.labels_intrinsic_params.end());
 
-  for (std::size_t i = 0; i < internal_poses.size(); i++)
+  // images in which the target could not be located are not part of the problem
+  for (std::size_t i : valid_idx)
   {
     param_blocks.emplace_back(internal_poses[i].values.data());
     std::vector<std::string> labels;
@@ -268,6 +271,9 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
   result.distortions[3] = internal_intrinsics_data[7];
   result.distortions[4] = internal_intrinsics_data[8];
 
+  for (std::size_t i : valid_idx)
+    result.target_transforms.push_back(poseCalToEigen(internal_poses[i]));
+
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
 
-- 
2.43.0


From e39a1276b27824d58fba0d8c01b3972c2758b2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 05/39] fix: covariance of a problem that cannot be evaluated

Ceres ignores that the evaluation of the jacobian failed (e.g. a non-finite
observation) and ends the process on an empty matrix.
---
 .../src/rct_optimizations/covariance_analysis.cpp            | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index feb3f6e..8f76ddf 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -197,6 +197,11 @@ CovarianceResult computeCovariance(ceres::Problem& problem,
   }
 
   // 1. Compute covariance matrix
+  // The covariance algorithms do not check that the problem can be evaluated (e.g., with non-finite observations)
+  ceres::CRSMatrix jacobian;
+  if (!problem.Evaluate(ceres::Problem::EvaluateOptions(), nullptr, nullptr, nullptr, &jacobian))
+    throw CovarianceException("Could not evaluate the problem in computeCovariance()");
+
   ceres::Covariance covariance(options);
 
   if (!covariance.Compute(parameter_blocks, &problem))
-- 
2.43.0


From 1b5a7494eca2ee6ec0c7fe04acbaefa2bf21bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 06/39] fix: intrinsic calibration with images of one or two
 features

Such an image does not determine a target pose, but was used as if it did; the
whole calibration then failed.
---
 rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index 3aab36a..b034bb3 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -116,6 +116,10 @@ static rct_optimizations::Pose6d solvePnP(const rct_optimizations::CameraIntrins
 {
   using namespace rct_optimizations;
 
+  // Each correspondence gives two of the six equations needed to determine the pose
+  if (obs.size() < 3)
+    throw std::runtime_error("too few correspondences to solve PnP sub-problem");
+
   PnPProblem problem;
   problem.camera_to_target_guess = poseCalToEigen(guess);
   problem.intr = intr;
-- 
2.43.0


From 253f56b0daec5bb1be3bafc1131b9848743bfd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 07/39] fix: random poses of a DH chain depend on its own seed
 only

All joints of all models shared one engine, seeded by whichever model drew first and advanced without synchronisation.
---
 .../include/rct_optimizations/dh_chain.h      | 31 +++++++++++-
 .../src/rct_optimizations/dh_chain.cpp        | 49 ++++++++++++++-----
 2 files changed, 66 insertions(+), 14 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/dh_chain.h b/rct_optimizations/include/rct_optimizations/dh_chain.h
index 0c1bd4b..e4903e1 100644
--- a/rct_optimizations/include/rct_optimizations/dh_chain.h
+++ b/rct_optimizations/include/rct_optimizations/dh_chain.h
@@ -2,6 +2,8 @@
 
 #include <Eigen/Geometry>
 #include <memory>
+#include <mutex>
+#include <random>
 #include <utility>
 #include <vector>
 
@@ -44,6 +46,29 @@ using Vector3 = Eigen::Matrix<T, 3, 1>;
 template <typename T>
 using Vector2 = Eigen::Matrix<T, 2, 1>;
 
+/**
+ * @brief Source of random values owned by a single kinematic model.
+ * The sequence is started from a seed on first use; a copy of a model starts its own sequence from its own seed
+ */
+class RandomValueGenerator
+{
+public:
+  RandomValueGenerator() = default;
+  RandomValueGenerator(const RandomValueGenerator& /*rhs*/) {}
+  RandomValueGenerator& operator=(const RandomValueGenerator& rhs);
+
+  /**
+   * @brief Draws one uniformly distributed value from each range
+   * @param ranges - minimum and maximum of the values to draw
+   * @param seed - seed with which to start the sequence on the first call
+   */
+  std::vector<double> draw(const std::vector<std::pair<double, double>>& ranges, std::size_t seed);
+
+private:
+  std::mutex mutex_;
+  std::unique_ptr<std::mt19937> engine_;
+};
+
 /**
  * @brief Struct representing the DH parameters of a single transformation between adjacent links.
  * This struct follows the classical DH parameter convention: Trans[Zi-1](d) * Rot[Zi-1](theta) * Trans[Xi](r) *
@@ -129,7 +154,9 @@ struct DHTransform
 
 protected:
   friend struct YAML::as_if<DHTransform, void>;
-  DHTransform() = default;
+  DHTransform() : random_seed(std::random_device{}()) {}
+
+  mutable RandomValueGenerator generator_;
 };
 
 /**
@@ -245,6 +272,8 @@ protected:
   std::vector<DHTransform> transforms_;
   /** @brief Fixed transform offset to the beginning of the chain */
   Eigen::Isometry3d base_offset_;
+  /** @brief Source of the random poses, seeded by the first transform */
+  mutable RandomValueGenerator generator_;
 
   DHChain() = default;
 };
diff --git a/rct_optimizations/src/rct_optimizations/dh_chain.cpp b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
index 0631059..6e6b144 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
@@ -3,6 +3,31 @@
 
 namespace rct_optimizations
 {
+// Random values
+
+RandomValueGenerator& RandomValueGenerator::operator=(const RandomValueGenerator& rhs)
+{
+  if (this != &rhs)
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    engine_.reset();
+  }
+  return *this;
+}
+
+std::vector<double> RandomValueGenerator::draw(const std::vector<std::pair<double, double>>& ranges, std::size_t seed)
+{
+  std::lock_guard<std::mutex> lock(mutex_);
+  if (!engine_)
+    engine_ = std::make_unique<std::mt19937>(seed);
+
+  std::vector<double> values;
+  values.reserve(ranges.size());
+  for (const std::pair<double, double>& range : ranges)
+    values.push_back(std::uniform_real_distribution<double>(range.first, range.second)(*engine_));
+  return values;
+}
+
 // DH Transform
 
 DHTransform::DHTransform(const Eigen::Vector4d& params_, DHJointType type_)
@@ -25,13 +50,7 @@ DHTransform::DHTransform(const Eigen::Vector4d& params_,
 
 double DHTransform::createRandomJointValue() const
 {
-  // Create a static random number generator so that this object does not get continuously re-instantiated
-  static std::mt19937 mt_rand = std::mt19937(random_seed);
-
-  // Create a new uniform distribution object with the current min and max values
-  std::uniform_real_distribution<double> dist(min, max);
-
-  return dist(mt_rand);
+  return generator_.draw({ { min, max } }, random_seed).front();
 }
 
 std::array<std::string, 4> DHTransform::getParamLabels() const
@@ -65,12 +84,16 @@ DHChain::DHChain(const DHChain& other, const Eigen::MatrixX4d& dh_offsets)
 
 Eigen::VectorXd DHChain::createUniformlyRandomPose() const
 {
-  Eigen::VectorXd joints(transforms_.size());
-  for (std::size_t i = 0; i < transforms_.size(); ++i)
-  {
-    joints[i] = transforms_[i].createRandomJointValue();
-  }
-  return joints;
+  if (transforms_.empty())
+    return Eigen::VectorXd(0);
+
+  std::vector<std::pair<double, double>> limits;
+  limits.reserve(transforms_.size());
+  for (const DHTransform& transform : transforms_)
+    limits.emplace_back(transform.min, transform.max);
+
+  const std::vector<double> joints = generator_.draw(limits, transforms_.front().random_seed);
+  return Eigen::Map<const Eigen::VectorXd>(joints.data(), static_cast<Eigen::Index>(joints.size()));
 }
 
 std::size_t DHChain::dof() const { return transforms_.size(); }
-- 
2.43.0


From c3166999ba0e811bc53f9ef2c739e8f83d55563d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 08/39] fix: applying offsets to a DH chain keeps joint names,
 limits and seeds

---
 rct_optimizations/src/rct_optimizations/dh_chain.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/dh_chain.cpp b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
index 6e6b144..c4854ad 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
@@ -72,11 +72,11 @@ DHChain::DHChain(std::vector<DHTransform> transforms, const Eigen::Isometry3d& b
 
 DHChain::DHChain(const DHChain& other, const Eigen::MatrixX4d& dh_offsets)
 {
-  transforms_.reserve(other.transforms_.size());
-  for (std::size_t i = 0; i < other.transforms_.size(); ++i)
+  transforms_ = other.transforms_;
+  for (std::size_t i = 0; i < transforms_.size(); ++i)
   {
-    const DHTransform& transform = other.transforms_.at(i);
-    transforms_.emplace_back(transform.params + dh_offsets.row(i).transpose(), transform.type);
+    // The offsets change the geometry only; the name, limits, and random seed of the joint are kept
+    transforms_[i].params += dh_offsets.row(i).transpose();
   }
 
   base_offset_ = other.base_offset_;
-- 
2.43.0


From f1a682e68827346f68a329daeaf0217e0b68c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:52 +0000
Subject: [PATCH 09/39] fix: hand-eye result read back with its roll and yaw
 exchanged

---
 .../include/rct_optimizations/serialization/problems.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/problems.h b/rct_optimizations/include/rct_optimizations/serialization/problems.h
index 06656f5..e36e502 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/problems.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/problems.h
@@ -111,11 +111,11 @@ struct convert<rct_optimizations::ExtrinsicHandEyeResult>
     rhs.final_cost_per_obs = node["final_cost_per_obs"].as<decltype(rhs.final_cost_per_obs)>();
 
     Eigen::Vector3d target_mount_to_target_pos = node["target_mount_to_target_pos"].as<Eigen::Vector3d>();
-    Eigen::Vector3d target_mount_to_target_rpy = node["target_mount_to_target_rpy"].as<Eigen::Vector3d>().reverse();
+    Eigen::Vector3d target_mount_to_target_rpy = node["target_mount_to_target_rpy"].as<Eigen::Vector3d>();
     rhs.target_mount_to_target = toIsometry<double>(target_mount_to_target_pos, target_mount_to_target_rpy);
 
     Eigen::Vector3d camera_mount_to_camera_pos = node["camera_mount_to_camera_pos"].as<Eigen::Vector3d>();
-    Eigen::Vector3d camera_mount_to_camera_rpy = node["camera_mount_to_camera_rpy"].as<Eigen::Vector3d>().reverse();
+    Eigen::Vector3d camera_mount_to_camera_rpy = node["camera_mount_to_camera_rpy"].as<Eigen::Vector3d>();
     rhs.camera_mount_to_camera = toIsometry<double>(camera_mount_to_camera_pos, camera_mount_to_camera_rpy);
 
     return true;
-- 
2.43.0


From b03f96662b9322865ff09afb4aaf262f9dba83af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:52 +0000
Subject: [PATCH 10/39] fix: DH chain whose list of transforms is not a list is
 refused

---
 .../include/rct_optimizations/serialization/types.h            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/types.h b/rct_optimizations/include/rct_optimizations/serialization/types.h
index 8ae11e0..f631374 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/types.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/types.h
@@ -134,6 +134,9 @@ struct convert<rct_optimizations::DHChain>
     val.base_offset_ = n["base_transform"].as<Eigen::Isometry3d>();
 
     const YAML::Node& transforms = n["dh_transforms"];
+    if (!transforms.IsSequence())
+      return false;
+
     val.transforms_.clear();
     val.transforms_.reserve(transforms.size());
     for (std::size_t i = 0; i < transforms.size(); i++)
-- 
2.43.0


From eb376f4ef68d406f873a0bdb5c8c830e376098ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:52 +0000
Subject: [PATCH 11/39] fix: conversion error in the parameters of a DH
 transform is an exception

---
 .../include/rct_optimizations/serialization/types.h         | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/types.h b/rct_optimizations/include/rct_optimizations/serialization/types.h
index f631374..a4c1045 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/types.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/types.h
@@ -113,10 +113,8 @@ struct convert<rct_optimizations::DHTransform>
       YAML::Node r = n["r"];
       YAML::Node alpha = n["alpha"];
 
-      Eigen::Vector4d params;
-      params << d.as<double>(), theta.as<double>(), r.as<double>(), alpha.as<double>();
-
-      val.params = params;
+      // Convert before assembling the vector, such that a failed conversion leaves no partially initialized vector
+      val.params = Eigen::Vector4d(d.as<double>(), theta.as<double>(), r.as<double>(), alpha.as<double>());
     }
 
     val.name = n["joint_name"].as<std::string>();
-- 
2.43.0


From 04f899d328ce5f24a4001388fd3f8e02ccb76d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 12/39] fix: noise qualification leaves out sessions without a
 pose and refuses fewer than two

---
 .../validation/noise_qualification.cpp        | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/validation/noise_qualification.cpp b/rct_optimizations/src/rct_optimizations/validation/noise_qualification.cpp
index 3d69ee2..211dc5f 100644
--- a/rct_optimizations/src/rct_optimizations/validation/noise_qualification.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/noise_qualification.cpp
@@ -49,6 +49,10 @@ Eigen::Quaterniond computeQuaternionMean(const std::vector<Eigen::Quaterniond>&
 
 QuaternionStats computeQuaternionStats(const std::vector<Eigen::Quaterniond>& quaternions)
 {
+  if (quaternions.size() < 2)
+    throw OptimizationException("At least 2 orientations are required to compute statistics (" +
+                                std::to_string(quaternions.size()) + " provided)");
+
   QuaternionStats q_stats;
   q_stats.mean = computeQuaternionMean(quaternions);
 
@@ -86,7 +90,15 @@ PnPNoiseStat qualifyNoise2D(const std::vector<PnPProblem>& params)
   {
     rct_optimizations::PnPResult result;
 
-    result = rct_optimizations::optimize(prob);
+    try
+    {
+      result = rct_optimizations::optimize(prob);
+    }
+    catch (const CovarianceException&)
+    {
+      // The observations do not determine a pose, so leave this one out
+      continue;
+    }
 
     if (result.converged)
     {
@@ -132,7 +144,15 @@ PnPNoiseStat qualifyNoise3D(const std::vector<PnPProblem3D>& params)
   {
     rct_optimizations::PnPResult result;
 
-    result = rct_optimizations::optimize(prob);
+    try
+    {
+      result = rct_optimizations::optimize(prob);
+    }
+    catch (const CovarianceException&)
+    {
+      // The observations do not determine a pose, so leave this one out
+      continue;
+    }
 
     if (result.converged)
     {
-- 
2.43.0


From 6309a3e366c769b84766f28c329771fb3089957b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 13/39] fix: random correspondence sampler draws no
 correspondence twice

---
 .../validation/homography_validation.cpp           | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
index df0d710..de51326 100644
--- a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
@@ -1,5 +1,7 @@
 #include <rct_optimizations/validation/homography_validation.h>
 #include <Eigen/Dense>
+#include <algorithm>
+#include <numeric>
 #include <rct_optimizations/types.h>
 
 namespace rct_optimizations
@@ -63,14 +65,12 @@ RandomCorrespondenceSampler::RandomCorrespondenceSampler(const std::size_t n_cor
 
 std::vector<std::size_t> RandomCorrespondenceSampler::getSampleCorrespondenceIndices() const
 {
-  // Create a random number generator with a uniform distribution across all indices
+  // Choose a different random correspondence index for each sample; a repeated index does not constrain the homography
   std::mt19937 rand_gen(seed);
-  std::uniform_int_distribution<std::size_t> dist(0, n_correspondences - 1);
-  auto fn = [&rand_gen, &dist]() -> std::size_t { return dist(rand_gen); };
-
-  // Generate a vector of 4 random correspondence indices
-  std::vector<std::size_t> output(n_samples);
-  std::generate(output.begin(), output.end(), fn);
+  std::vector<std::size_t> output(n_correspondences);
+  std::iota(output.begin(), output.end(), 0);
+  std::shuffle(output.begin(), output.end(), rand_gen);
+  output.resize(n_samples);
 
   return output;
 }
-- 
2.43.0


From 7b1e565115c497b5aaacd468deebc4fe9dfdf24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 14/39] fix: intrinsic calibration validation without enough
 data is an error

---
 .../camera_intrinsic_calibration_validation.cpp     | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
index 6a8f3ed..25bb70f 100644
--- a/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
@@ -33,6 +33,16 @@ VirtualCorrespondenceResult measureVirtualTargetDiff(const Correspondence2D3D::S
   // Calculate the size of half of the correspondence set
   std::size_t half_size = correspondences.size() / 2;
 
+  // The pose of a virtual target cannot be determined from fewer than 3 features
+  const std::size_t min_half_size = 3;
+  if (half_size < min_half_size)
+  {
+    std::stringstream ss;
+    ss << "Not enough correspondences to create two virtual targets: " << correspondences.size() << " vs. "
+       << 2 * min_half_size << " required";
+    throw OptimizationException(ss.str());
+  }
+
   // Create two half sets of correspondences
   Correspondence2D3D::Set set_1(correspondences.begin(), correspondences.begin() + half_size);
   Correspondence2D3D::Set set_2(correspondences.begin() + half_size, correspondences.end());
@@ -64,6 +74,9 @@ measureIntrinsicCalibrationAccuracy(const Observation2D3D::Set& observations,
                                     const Eigen::Isometry3d& camera_base_to_target_base,
                                     const double pnp_sq_error_threshold)
 {
+  if (observations.empty())
+    throw OptimizationException("No observations were provided");
+
   // Check that the observations are all the same size
   // Assuming that each observation's correspondences are ordered the same
   for (std::size_t i = 0; i < observations.size() - 1; ++i)
-- 
2.43.0


From cbae14d26e21d00af547a71773988c1d1d2edfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:27 +0000
Subject: [PATCH 15/39] fix: running out of memory is not a view without a pose
 in intrinsic calibration

---
 rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index b034bb3..2fc2604 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -206,6 +206,10 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
       internal_poses[i] = solvePnP(params.intrinsics_guess, params.image_observations[i], guess);
       valid_idx.push_back(i);
     }
+    catch (const std::bad_alloc&)
+    {
+      throw;
+    }
     catch (const std::exception&)
     {
       std::cout << "PnP failed for image " << i << std::endl;
-- 
2.43.0


From 764aee57649360ff4c2fe8381d0274f437414aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:26 +0000
Subject: [PATCH 16/39] fix: kinematic calibration without observations or with
 a negative mask index is an exception; covariance lists parameters in their
 own order

---
 .../rct_optimizations/local_parameterization.h     |  3 +++
 .../dh_chain_kinematic_calibration.cpp             | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/local_parameterization.h b/rct_optimizations/include/rct_optimizations/local_parameterization.h
index b907048..655e39a 100644
--- a/rct_optimizations/include/rct_optimizations/local_parameterization.h
+++ b/rct_optimizations/include/rct_optimizations/local_parameterization.h
@@ -119,6 +119,9 @@ void addSubsetParameterization(ceres::Problem& problem, const std::map<const dou
           throw OptimizationException(ss.str());
         }
 
+        if (mask.front() < 0)
+          throw OptimizationException("Mask indices cannot be negative (" + std::to_string(mask.front()) + ")");
+
         // Set local parameterization on the indices or set the entire block constant
         if (mask.size() >= block_size)
         {
diff --git a/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp b/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
index ca8c808..5f593ea 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
@@ -213,6 +213,9 @@ KinematicCalibrationResult optimize(const KinematicCalibrationProblem2D3D& param
     }
   }
 
+  if (problem.NumResidualBlocks() == 0)
+    throw OptimizationException("Kinematic calibration requires at least one observation");
+
   // Tell the optimization to keep constant the dummy DH offsets that might have been added to the 0-DoF chains
   if (params.camera_chain.dof() == 0)
     problem.SetParameterBlockConstant(camera_chain_dh_offsets.data());
@@ -292,7 +295,9 @@ KinematicCalibrationResult optimize(const KinematicCalibrationProblem2D3D& param
   ceres::Covariance::Options cov_options = rct_optimizations::DefaultCovarianceOptions();
   cov_options.null_space_rank = -1;  // automatically drop terms below min_reciprocal_condition_number
 
-  result.covariance = computeCovariance(problem, param_labels, param_masks, cov_options);
+  // List the parameter blocks in the order of the parameters instead of the order of their addresses in memory
+  const std::vector<const double*> parameter_blocks(parameters.begin(), parameters.end());
+  result.covariance = computeCovariance(problem, parameter_blocks, param_labels, param_masks, cov_options);
 
   return result;
 }
@@ -435,6 +440,9 @@ KinematicCalibrationResult optimize(const KinematicCalibrationProblemPose6D& par
     problem.AddResidualBlock(cost_block, nullptr, parameters);
   }
 
+  if (problem.NumResidualBlocks() == 0)
+    throw OptimizationException("Kinematic calibration requires at least one observation");
+
   // Tell the optimization to keep constant the dummy DH offsets that might have been added to the 0-DoF chains
   if (params.camera_chain.dof() == 0)
     problem.SetParameterBlockConstant(camera_chain_dh_offsets.data());
@@ -508,7 +516,9 @@ KinematicCalibrationResult optimize(const KinematicCalibrationProblemPose6D& par
   ceres::Covariance::Options cov_options = rct_optimizations::DefaultCovarianceOptions();
   cov_options.null_space_rank = -1;  // automatically drop terms below min_reciprocal_condition_number
 
-  result.covariance = computeCovariance(problem, param_labels, param_masks, cov_options);
+  // List the parameter blocks in the order of the parameters instead of the order of their addresses in memory
+  const std::vector<const double*> parameter_blocks(parameters.begin(), parameters.end());
+  result.covariance = computeCovariance(problem, parameter_blocks, param_labels, param_masks, cov_options);
 
   return result;
 }
-- 
2.43.0


From 070412f7c960ff8abba5347a6202322bf5984108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:47 +0000
Subject: [PATCH 17/39] fix: kinematic calibration from a guess without
 rotation

---
 .../rct_optimizations/dh_chain_kinematic_calibration.h    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
index 59b1c66..98b0e65 100644
--- a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
+++ b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
@@ -160,6 +160,14 @@ public:
     {
       result *= Eigen::AngleAxis<T>(aa_norm, aa.normalized());
     }
+    else
+    {
+      // A constant rotation would have no derivatives, so the optimization could never rotate away from zero. Use the
+      // first order approximation of the rotation instead
+      Eigen::Matrix<T, 3, 3> rotation;
+      rotation << T(1.0), -aa.z(), aa.y(), aa.z(), T(1.0), -aa.x(), -aa.y(), aa.x(), T(1.0);
+      result.linear() = rotation;
+    }
     return result;
   }
 
-- 
2.43.0


From cbde5922835e09b5193f6e6bba6bc1068d487ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 18/39] fix: kinematic calibration from poses gets stuck where
 the orientation of a single measurement matches

---
 .../dh_chain_kinematic_calibration.h          | 65 +++++++++++++++----
 .../dh_chain_kinematic_calibration.cpp        |  6 +-
 2 files changed, 54 insertions(+), 17 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
index 98b0e65..049c32d 100644
--- a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
+++ b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
@@ -361,6 +361,28 @@ public:
 
   template <typename T>
   bool operator()(T const* const* parameters, T* residual) const
+  {
+    // Get the difference between the expected and observed pose of the target
+    const Isometry3<T> camera_to_target = getCameraToTarget(parameters);
+
+    Isometry3<T> tform_error = camera_to_target_measured_.cast<T>() * camera_to_target.inverse();
+
+    residual[0] = tform_error.translation().x();
+    residual[1] = tform_error.translation().y();
+    residual[2] = tform_error.translation().z();
+
+    T rot_diff = Eigen::Quaternion<T>(camera_to_target_measured_.cast<T>().linear())
+                     .angularDistance(Eigen::Quaternion<T>(camera_to_target.linear()));
+
+    residual[3] = ceres::IsNaN(rot_diff) ? T(0.0) : T(orientation_weight_) * rot_diff;
+
+    return true;
+  }
+
+protected:
+  /** @brief Computes the expected pose of the target relative to the camera */
+  template <typename T>
+  Isometry3<T> getCameraToTarget(T const* const* parameters) const
   {
     // Step 1: Load the data
     // The first parameter is a pointer to the DH parameter offsets of the camera kinematic chain
@@ -395,27 +417,42 @@ public:
     Isometry3<T> target_chain_fk = target_chain_.getFK<T>(target_chain_joints_.cast<T>(), target_chain_dh_offsets);
     Isometry3<T> camera_base_to_target = camera_base_to_target_base * target_chain_fk * target_mount_to_target;
 
-    // Now that we have two transforms in the same frame, get the difference between the expected and observed pose of
-    // the target
-    Isometry3<T> camera_to_target = camera_base_to_camera.inverse() * camera_base_to_target;
+    // Now that we have two transforms in the same frame, get the expected pose of the target
+    return camera_base_to_camera.inverse() * camera_base_to_target;
+  }
 
-    Isometry3<T> tform_error = camera_to_target_measured_.cast<T>() * camera_to_target.inverse();
+  const Eigen::Isometry3d camera_to_target_measured_;
+  const double orientation_weight_;
+};
 
-    residual[0] = tform_error.translation().x();
-    residual[1] = tform_error.translation().y();
-    residual[2] = tform_error.translation().z();
+/**
+ * @brief Cost with the same sum of squares as @ref DualDHChainCostPose6D, but with the orientation error as a rotation
+ * vector (6 residuals) instead of its magnitude. The magnitude is not differentiable where the orientations match, so an
+ * optimization can get stuck at any parameters for which a single measurement matches
+ */
+class DualDHChainCostPose6DVector : public DualDHChainCostPose6D
+{
+public:
+  using DualDHChainCostPose6D::DualDHChainCostPose6D;
 
-    T rot_diff = Eigen::Quaternion<T>(camera_to_target_measured_.cast<T>().linear())
-                     .angularDistance(Eigen::Quaternion<T>(camera_to_target.linear()));
+  template <typename T>
+  bool operator()(T const* const* parameters, T* residual) const
+  {
+    const Isometry3<T> tform_error = camera_to_target_measured_.cast<T>() * getCameraToTarget(parameters).inverse();
 
-    residual[3] = ceres::IsNaN(rot_diff) ? T(0.0) : T(orientation_weight_) * rot_diff;
+    const Eigen::Quaternion<T> q(tform_error.linear());
+    const T q_error[4] = { q.w(), q.x(), q.y(), q.z() };
+    T rot_diff[3];
+    ceres::QuaternionToAngleAxis(q_error, rot_diff);
+
+    for (int i = 0; i < 3; ++i)
+    {
+      residual[i] = tform_error.translation()(i);
+      residual[3 + i] = T(orientation_weight_) * rot_diff[i];
+    }
 
     return true;
   }
-
-protected:
-  const Eigen::Isometry3d camera_to_target_measured_;
-  const double orientation_weight_;
 };
 
 /**
diff --git a/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp b/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
index 5f593ea..baf2bd3 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
@@ -412,9 +412,9 @@ KinematicCalibrationResult optimize(const KinematicCalibrationProblemPose6D& par
     // Allocate Ceres data structures - ownership is taken by the ceres
     // Problem data structure
     auto* cost_fn =
-        new DualDHChainCostPose6D(observation, params.camera_chain, params.target_chain, orientation_weight);
+        new DualDHChainCostPose6DVector(observation, params.camera_chain, params.target_chain, orientation_weight);
 
-    auto* cost_block = new ceres::DynamicAutoDiffCostFunction<DualDHChainCostPose6D>(cost_fn);
+    auto* cost_block = new ceres::DynamicAutoDiffCostFunction<DualDHChainCostPose6DVector>(cost_fn);
 
     // Add the optimization parameters
     // DH parameters for both kinematic chains
@@ -434,7 +434,7 @@ KinematicCalibrationResult optimize(const KinematicCalibrationProblemPose6D& par
     cost_block->AddParameterBlock(3);
 
     // Residual error
-    cost_block->SetNumResiduals(4);
+    cost_block->SetNumResiduals(6);
 
     // Add the residual block to the problem
     problem.AddResidualBlock(cost_block, nullptr, parameters);
-- 
2.43.0


From 8b274cd15ed3af92c1b4f06656a61fc044955291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 19/39] fix: saveToDirectory reports failures and never leaves
 an index of incomplete data

Failing to create a directory, or to write an image, pose or the index (e.g. disk full) was reported as success; images and
poses of different number were stored; overwriting a data set that could not be completed left the old index in place, which
then paired images of one data set with poses of another; a bare file name made parseFromFile read from the root directory.
---
 rct_ros_tools/src/data_set.cpp | 86 +++++++++++++++++++++++++++++-----
 1 file changed, 74 insertions(+), 12 deletions(-)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 09ae4e7..acae9a6 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -3,6 +3,8 @@
 #include <rct_image_tools/image_utils.h>
 #include <rct_optimizations/serialization/eigen.h>
 
+#include <cerrno>
+#include <cstdio>
 #include <fstream>
 #include <opencv2/highgui.hpp>
 #include <ros/console.h>
@@ -11,7 +13,8 @@
 static std::string rootPath(const std::string& filename)
 {
   const auto last_idx = filename.find_last_of('/');
-  assert(last_idx != std::string::npos);
+  if (last_idx == std::string::npos)
+    return ".";  // A bare file name is relative to the working directory
   return filename.substr(0, last_idx);
 }
 
@@ -73,16 +76,44 @@ boost::optional<rct_ros_tools::ExtrinsicDataSet> rct_ros_tools::parseFromFile(co
   }
 }
 
-void writePose(const std::string& path, const Eigen::Isometry3d& pose)
+static bool makeDirectory(const std::string& path)
+{
+  return mkdir(path.c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH) == 0 || errno == EEXIST;
+}
+
+static bool writeImage(const std::string& path, const cv::Mat& image)
+{
+  // Encoding to memory first allows errors in storing the data (which cv::imwrite does not report) to be noticed
+  std::vector<uchar> buffer;
+  try
+  {
+    if (!cv::imencode(".png", image, buffer))
+      return false;
+  }
+  catch (const cv::Exception& ex)
+  {
+    ROS_ERROR_STREAM("Failed to encode image: " << ex.what());
+    return false;
+  }
+
+  std::ofstream ofh(path, std::ios::binary);
+  ofh.write(reinterpret_cast<const char*>(buffer.data()), static_cast<std::streamsize>(buffer.size()));
+  ofh.close();
+  return !ofh.fail();
+}
+
+static bool writePose(const std::string& path, const Eigen::Isometry3d& pose)
 {
   YAML::Node root(pose);
   std::ofstream ofh(path);
   ofh << root;
+  ofh.close();
+  return !ofh.fail();
 }
 
-void writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
+static bool writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
 {
-  YAML::Node root;
+  YAML::Node root(YAML::NodeType::Sequence);
 
   for (std::size_t i = 0; i < data.images.size(); ++i)
   {
@@ -95,27 +126,58 @@ void writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataS
 
   std::ofstream ofh(path);
   ofh << root;
+  ofh.close();
+  return !ofh.fail();
 }
 
 bool rct_ros_tools::saveToDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
 {
-  mkdir(path.c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
-  mkdir((path + "/images").c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
-  mkdir((path + "/poses").c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
+  if (data.images.size() != data.tool_poses.size())
+  {
+    ROS_ERROR_STREAM("Data set has " << data.images.size() << " images but " << data.tool_poses.size() << " poses");
+    return false;
+  }
+
+  if (!makeDirectory(path) || !makeDirectory(path + "/images") || !makeDirectory(path + "/poses"))
+  {
+    ROS_ERROR_STREAM("Failed to create the data set directories in " << path);
+    return false;
+  }
+
+  // Remove the index of a previous data set such that it can not refer to the files of this one, should saving fail
+  const std::string index = path + "/data.yaml";
+  if (std::remove(index.c_str()) != 0 && errno != ENOENT)
+  {
+    ROS_ERROR_STREAM("Failed to remove " << index);
+    return false;
+  }
 
   for (std::size_t i = 0; i < data.images.size(); ++i)
   {
-    auto name = path + "/images/" + std::to_string(i) + ".png";
-    cv::imwrite(name, data.images[i]);
+    const std::string name = path + "/images/" + std::to_string(i) + ".png";
+    if (!writeImage(name, data.images[i]))
+    {
+      ROS_ERROR_STREAM("Failed to write " << name);
+      return false;
+    }
   }
 
   for (std::size_t i = 0; i < data.tool_poses.size(); ++i)
   {
-    auto name = path + "/poses/" + std::to_string(i) + ".yaml";
-    writePose(name, data.tool_poses[i]);
+    const std::string name = path + "/poses/" + std::to_string(i) + ".yaml";
+    if (!writePose(name, data.tool_poses[i]))
+    {
+      ROS_ERROR_STREAM("Failed to write " << name);
+      return false;
+    }
   }
 
-  writeDirectory(path + "/data.yaml", data);
+  // The index is written last, when all files that it refers to are in place
+  if (!writeDirectory(index, data))
+  {
+    ROS_ERROR_STREAM("Failed to write " << index);
+    return false;
+  }
 
   return true;
 }
-- 
2.43.0


From 4c7f34bfcb2255aaf6f0f688fe69d820af14e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:23 +0000
Subject: [PATCH 20/39] fix: ExtrinsicCorrespondenceDataSet with cameras of
 different image counts

The table was sized by the first camera: more images in another camera wrote out of its bounds, fewer left the mask entries
uninitialised, and no cameras at all accessed a missing element.
---
 rct_ros_tools/src/data_set.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index acae9a6..eeff4a1 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -3,6 +3,7 @@
 #include <rct_image_tools/image_utils.h>
 #include <rct_optimizations/serialization/eigen.h>
 
+#include <algorithm>
 #include <cerrno>
 #include <cstdio>
 #include <fstream>
@@ -191,8 +192,13 @@ rct_ros_tools::ExtrinsicCorrespondenceDataSet::ExtrinsicCorrespondenceDataSet(
   if (debug)
     cv::namedWindow(WINDOW, cv::WINDOW_NORMAL);
 
-  correspondences_.resize(extrinsic_data_set.size(), extrinsic_data_set[0].images.size());
-  mask_.resize(extrinsic_data_set.size(), extrinsic_data_set[0].images.size());
+  // The cameras may have captured different numbers of images; images that a camera did not capture are marked not found
+  std::size_t image_count = 0;
+  for (const rct_ros_tools::ExtrinsicDataSet& data_set : extrinsic_data_set)
+    image_count = std::max(image_count, data_set.images.size());
+
+  correspondences_.resize(extrinsic_data_set.size(), image_count);
+  mask_.setZero(extrinsic_data_set.size(), image_count);
   for (std::size_t c = 0; c < extrinsic_data_set.size(); ++c)
   {
     // We know it exists, so define a helpful alias
-- 
2.43.0


From 02b6e20a876f2ea3e939e6800d4bd01c74c292ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 21/39] fix: target finder plugins refuse impossible target
 definitions

A circle grid without rows or columns aborted the process (or, without assertions, produced a target with a wrapped around
number of features), and OpenCV replaces an unknown marker dictionary by another one, so that no marker is ever found.
---
 rct_ros_tools/src/target_loader_plugins.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rct_ros_tools/src/target_loader_plugins.cpp b/rct_ros_tools/src/target_loader_plugins.cpp
index b8b613a..d14e140 100644
--- a/rct_ros_tools/src/target_loader_plugins.cpp
+++ b/rct_ros_tools/src/target_loader_plugins.cpp
@@ -83,6 +83,9 @@ public:
     int rows = config["rows"].as<int>();
     int cols = config["cols"].as<int>();
     double spacing = config["spacing"].as<double>();
+    if (rows < 1 || cols < 1)
+      throw std::runtime_error("The 'rows' and 'cols' parameters must be positive");
+
     rct_image_tools::ModifiedCircleGridTarget target(rows, cols, spacing);
 
     try
@@ -114,6 +117,10 @@ public:
     float aruco_marker_dim = config["aruco_marker_dim"].as<float>();
     int dictionary = config["dictionary"].as<int>();
 
+    // OpenCV silently replaces an unknown dictionary by its default one
+    if (dictionary < cv::aruco::DICT_4X4_50 || dictionary > cv::aruco::DICT_APRILTAG_36h11)
+      throw std::runtime_error("The 'dictionary' parameter is not the ID of a predefined dictionary");
+
     rct_image_tools::CharucoGridTarget target(rows, cols, chessboard_dim, aruco_marker_dim, dictionary);
     finder_ = std::make_shared<const rct_image_tools::CharucoGridBoardTargetFinder>(target);
   }
-- 
2.43.0


From 0f4c6dc3508a30fedab381ce7096e71814eb1ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 22/39] fix: command_line_cal survives malformed images and
 reports a failed save

---
 rct_ros_tools/src/command_line_cal.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/rct_ros_tools/src/command_line_cal.cpp b/rct_ros_tools/src/command_line_cal.cpp
index 16fca3b..a265c4d 100644
--- a/rct_ros_tools/src/command_line_cal.cpp
+++ b/rct_ros_tools/src/command_line_cal.cpp
@@ -81,6 +81,11 @@ public:
       {
         cv_ptr = cv_bridge::toCvCopy(msg, sensor_msgs::image_encodings::BGR8);
       }
+      if (cv_ptr->image.empty())
+      {
+        ROS_ERROR_STREAM("Received an empty image");
+        return;
+      }
       last_frame_ = cv_ptr;
 
       try
@@ -91,17 +96,23 @@ public:
         cv_bridge::CvImagePtr ptr(new cv_bridge::CvImage(cv_ptr->header, cv_ptr->encoding, modified_image));
         im_pub_.publish(ptr->toImageMsg());
       }
-      catch (const std::runtime_error& ex)
+      catch (const std::exception& ex)
       {
         ROS_ERROR_STREAM(ex.what());
         im_pub_.publish(cv_ptr->toImageMsg());
       }
     }
-    catch (cv_bridge::Exception& e)
+    catch (const cv_bridge::Exception& e)
     {
       ROS_ERROR("cv_bridge exception: %s", e.what());
       return;
     }
+    catch (const cv::Exception& e)
+    {
+      // Malformed images may also cause errors in OpenCV
+      ROS_ERROR("OpenCV exception: %s", e.what());
+      return;
+    }
   }
 
   bool capture(cv::Mat& frame)
@@ -182,7 +193,11 @@ struct DataCollection
     }
 
     ROS_INFO_STREAM("Saving data-set to " << save_dir_);
-    rct_ros_tools::saveToDirectory(save_dir_, data);
+    if (!rct_ros_tools::saveToDirectory(save_dir_, data))
+    {
+      ROS_ERROR_STREAM("Failed to save data-set to " << save_dir_);
+      return false;
+    }
     return true;
   }
 
-- 
2.43.0


From 7f82376a7f3ca3be409b584b16204f1b08ca3744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 23/39] fix: ArUco finder ignores markers that are not part of
 its target

---
 rct_image_tools/src/rct_image_tools/aruco_finder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
index 528129c..90ae620 100644
--- a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
@@ -25,6 +25,10 @@ TargetFeatures ArucoGridBoardTargetFinder::findTargetFeatures(const cv::Mat& ima
 
   for (unsigned i = 0; i < marker_ids.size(); i++)
   {
+    // Skip markers that do not belong to this target
+    if (target_.points.find(marker_ids[i]) == target_.points.end())
+      continue;
+
     std::vector<cv::Point2f> corner_pts = marker_corners[i];
     VectorEigenVector<2> obs_pts(4);
 
-- 
2.43.0


From 39a1ec1c8f36d26caf7be630a08464e6b0fdc9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 24/39] fix: drawing ArUco and ChArUco features leaves the
 input image unchanged

---
 rct_image_tools/src/rct_image_tools/aruco_finder.cpp   | 5 +++--
 rct_image_tools/src/rct_image_tools/charuco_finder.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
index 90ae620..3b110cf 100644
--- a/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/aruco_finder.cpp
@@ -55,7 +55,8 @@ cv::Mat ArucoGridBoardTargetFinder::drawTargetFeatures(const cv::Mat& image,
     });
     marker_corners.push_back(cv_obs);
   }
-  cv::aruco::drawDetectedMarkers(image, marker_corners, marker_ids);
-  return image;
+  cv::Mat output_image = image.clone();
+  cv::aruco::drawDetectedMarkers(output_image, marker_corners, marker_ids);
+  return output_image;
 }
 }  // namespace rct_image_tools
diff --git a/rct_image_tools/src/rct_image_tools/charuco_finder.cpp b/rct_image_tools/src/rct_image_tools/charuco_finder.cpp
index 0107117..7f06a3e 100644
--- a/rct_image_tools/src/rct_image_tools/charuco_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/charuco_finder.cpp
@@ -65,9 +65,10 @@ cv::Mat CharucoGridBoardTargetFinder::drawTargetFeatures(const cv::Mat& image,
   }
 
   // Draw the detected corners
-  cv::aruco::drawDetectedCornersCharuco(image, charuco_corners, charuco_ids, cv::Scalar(255, 0, 0));
+  cv::Mat output_image = image.clone();
+  cv::aruco::drawDetectedCornersCharuco(output_image, charuco_corners, charuco_ids, cv::Scalar(255, 0, 0));
 
-  return image;
+  return output_image;
 }
 
 }  // namespace rct_image_tools
-- 
2.43.0


From 2443813922f30ba690ff82ea169cc07e4b75e432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 25/39] fix: circle detector read outside of the image for
 ellipses centred beyond its border

---
 rct_image_tools/src/rct_image_tools/circle_detector.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rct_image_tools/src/rct_image_tools/circle_detector.cpp b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
index 44d3b39..ebe720e 100644
--- a/rct_image_tools/src/rct_image_tools/circle_detector.cpp
+++ b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
@@ -167,7 +167,12 @@ DetectionResult findCircles(const cv::Mat& image,
     // Check that the color of the center pixel matches the expectation
     if (params.filterByColor)
     {
-      if (binarized_image.at<uchar>(cvRound(box.center.y), cvRound(box.center.x)) != params.circleColor)
+      // The center of an ellipse that was fit to part of a circle (or to noise) can be located outside of the image
+      const cv::Point center(cvRound(box.center.x), cvRound(box.center.y));
+      if (!cv::Rect(0, 0, binarized_image.cols, binarized_image.rows).contains(center))
+        continue;
+
+      if (binarized_image.at<uchar>(center) != params.circleColor)
         continue;
     }
 
-- 
2.43.0


From b71cc424ed6cfd70f8da4d59305547c467650d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 26/39] fix: modified circle grid finder reported one circle as
 two features when the detector found it twice

---
 .../rct_image_tools/modified_circle_grid_finder.cpp    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
index 5a163e6..dd08b08 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
@@ -389,6 +389,16 @@ static std::vector<cv::Point2d> extractModifiedCircleGrid(const cv::Mat& image,
   if (centers.size() == 0)
     throw std::runtime_error("Failed to find circle centers");
 
+  // The detector can report one circle more than once, in which case the grid may contain the same circle twice
+  for (std::size_t i = 0; i < centers.size(); ++i)
+  {
+    for (std::size_t j = i + 1; j < centers.size(); ++j)
+    {
+      if (cv::norm(centers[i] - centers[j]) < params.circleInclusionRadius)
+        throw std::runtime_error("Circle grid contains the same circle more than once");
+    }
+  }
+
   return extractKeyPoints(image, centers, detector_ptr, rows, cols, flipped);
 }
 
-- 
2.43.0


From 8bc671c79afdc8a6e3922818ffe09de7ae1baa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 27/39] fix: list the pose parameter labels in the order of the
 pose parameters

---
 .../include/rct_optimizations/experimental/camera_intrinsic.h | 2 +-
 .../include/rct_optimizations/extrinsic_hand_eye.h            | 4 ++--
 .../include/rct_optimizations/extrinsic_multi_static_camera.h | 2 +-
 .../rct_optimizations/extrinsic_multi_static_camera_only.h    | 2 +-
 .../extrinsic_multi_static_camera_wrist_only.h                | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
index 2899f98..628918a 100644
--- a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
+++ b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
@@ -18,7 +18,7 @@ struct IntrinsicEstimationProblem
   const std::array<std::string, 9> labels_intrinsic_params = {
     { "fx", "fy", "cx", "cy", "k1", "k2", "p1", "p2", "k3" }
   };
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 };
 
 struct IntrinsicEstimationResult
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h b/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
index 2b082f3..5321f67 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
@@ -30,7 +30,7 @@ struct ExtrinsicHandEyeProblem2D3D
   Eigen::Isometry3d target_mount_to_target_guess;
   Eigen::Isometry3d camera_mount_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
   std::string label_target_mount_to_target = "target_mount_to_target";
   std::string label_camera_mount_to_camera = "camera_mount_to_camera";
 
@@ -48,7 +48,7 @@ struct ExtrinsicHandEyeProblem3D3D
   Eigen::Isometry3d target_mount_to_target_guess;
   Eigen::Isometry3d camera_mount_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
   std::string label_target_mount_to_target = "target_mount_to_target";
   std::string label_camera_mount_to_camera = "camera_mount_to_camera";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
index d6d54ae..932830b 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
@@ -47,7 +47,7 @@ struct ExtrinsicMultiStaticCameraMovingTargetProblem
   /** @brief Your best guess at the "base frame" to "camera frame" transform; one for each camera */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_wrist_to_target = "wrist_to_target";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h
index b369a08..f94922d 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h
@@ -49,7 +49,7 @@ struct ExtrinsicMultiStaticCameraOnlyProblem
   /** @brief Your best guess at the "base frame" to "camera frame" transform; one for each camera */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_base_to_target = "base_to_target";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h
index 8b9de11..00c0ebd 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h
@@ -50,7 +50,7 @@ struct ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem
    */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_wrist_to_target = "wrist_to_target";
 
-- 
2.43.0


From 2b2f4691a14e636bed1baf6ea8a101d062dd45ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 28/39] fix: report the covariance of the poses named, not of
 their inverses

---
 .../rct_optimizations/ceres_math_utilities.h  | 12 ++++++
 .../rct_optimizations/extrinsic_hand_eye.cpp  | 42 +++++++++----------
 .../extrinsic_multi_static_camera.cpp         | 30 ++++++-------
 3 files changed, 48 insertions(+), 36 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
index 4b079ec..b0c7006 100644
--- a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
+++ b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
@@ -16,6 +16,18 @@ inline void transformPoint(const T angle_axis[3], const T tx[3], const T point[3
   t_point[2] = t_point[2] + tx[2];
 }
 
+/**
+ * @brief Transforms a point by the inverse of the transform represented by an angle axis rotation and a translation
+ */
+template <typename T>
+inline void inverseTransformPoint(const T angle_axis[3], const T tx[3], const T point[3], T t_point[3])
+{
+  const T inverse_angle_axis[3] = { -angle_axis[0], -angle_axis[1], -angle_axis[2] };
+  const T offset[3] = { point[0] - tx[0], point[1] - tx[1], point[2] - tx[2] };
+
+  ceres::AngleAxisRotatePoint(inverse_angle_axis, offset, t_point);
+}
+
 template <typename T>
 inline void poseTransformPoint(const Pose6d& pose, const T point[3], T t_point[3])
 {
diff --git a/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp b/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp
index d6b418c..f2689c6 100644
--- a/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp
+++ b/rct_optimizations/src/rct_optimizations/extrinsic_hand_eye.cpp
@@ -36,15 +36,15 @@ public:
   }
 
   template <typename T>
-  bool operator()(const T* pose_camera_to_camera_mount, const T* pose_target_mount_to_target, T* residual) const;
+  bool operator()(const T* pose_camera_mount_to_camera, const T* pose_target_mount_to_target, T* residual) const;
 
   template <typename T>
-  void getTargetPointInCamera(const T* pose_camera_to_camera_mount,
+  void getTargetPointInCamera(const T* pose_camera_mount_to_camera,
                               const T* pose_target_mount_to_target,
                               T* camera_point) const
   {
-    const T* camera_angle_axis = pose_camera_to_camera_mount + 0;
-    const T* camera_position = pose_camera_to_camera_mount + 3;
+    const T* camera_angle_axis = pose_camera_mount_to_camera + 0;
+    const T* camera_position = pose_camera_mount_to_camera + 3;
 
     const T* target_angle_axis = pose_target_mount_to_target + 0;
     const T* target_position = pose_target_mount_to_target + 3;
@@ -61,7 +61,7 @@ public:
     transformPoint(target_angle_axis, target_position, target_pt, target_mount_point);
     poseTransformPoint(base_to_target_mount_, target_mount_point, world_point);
     poseTransformPoint(camera_mount_to_base_, world_point, camera_mount_point);
-    transformPoint(camera_angle_axis, camera_position, camera_mount_point, camera_point);
+    inverseTransformPoint(camera_angle_axis, camera_position, camera_mount_point, camera_point);
   }
 
 protected:
@@ -87,11 +87,11 @@ public:
   }
 
   template <typename T>
-  bool operator()(const T* pose_camera_to_camera_mount, const T* pose_target_mount_to_target, T* residual) const
+  bool operator()(const T* pose_camera_mount_to_camera, const T* pose_target_mount_to_target, T* residual) const
   {
     // Get the point in the frame of the camera
     T camera_point[3];
-    getTargetPointInCamera(pose_camera_to_camera_mount, pose_target_mount_to_target, camera_point);
+    getTargetPointInCamera(pose_camera_mount_to_camera, pose_target_mount_to_target, camera_point);
 
     // Project the point into the image
     T xy_image[2];
@@ -117,11 +117,11 @@ public:
   using ObservationCost<3>::ObservationCost;
 
   template <typename T>
-  bool operator()(const T* pose_camera_to_camera_mount, const T* pose_target_mount_to_target, T* residual) const
+  bool operator()(const T* pose_camera_mount_to_camera, const T* pose_target_mount_to_target, T* residual) const
   {
     // Get the target point in the frame of the camera
     T camera_point[3];
-    getTargetPointInCamera(pose_camera_to_camera_mount, pose_target_mount_to_target, camera_point);
+    getTargetPointInCamera(pose_camera_mount_to_camera, pose_target_mount_to_target, camera_point);
 
     // Calculate the residual error
     residual[0] = camera_point[0] - obs_.x();
@@ -132,15 +132,15 @@ public:
   }
 };
 
-bool isPointVisible(const Pose6d& camera_to_camera_mount,
+bool isPointVisible(const Pose6d& camera_mount_to_camera,
                     const Pose6d& target_mount_to_target,
                     const ObservationCost2D3D* cost_fn)
 {
-  const double* pose_camera_to_camera_mount = camera_to_camera_mount.values.data();
+  const double* pose_camera_mount_to_camera = camera_mount_to_camera.values.data();
   const double* pose_target_mount_to_target = target_mount_to_target.values.data();
 
   double camera_point[3];
-  cost_fn->getTargetPointInCamera(pose_camera_to_camera_mount, pose_target_mount_to_target, camera_point);
+  cost_fn->getTargetPointInCamera(pose_camera_mount_to_camera, pose_target_mount_to_target, camera_point);
 
   // Return whether or not the projected point's Z value is greater than zero
   return camera_point[2] > 0.0;
@@ -153,7 +153,7 @@ namespace rct_optimizations
 ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
 {
   Pose6d internal_base_to_target = poseEigenToCal(params.target_mount_to_target_guess);
-  Pose6d internal_camera_to_wrist = poseEigenToCal(params.camera_mount_to_camera_guess.inverse());
+  Pose6d internal_wrist_to_camera = poseEigenToCal(params.camera_mount_to_camera_guess);
 
   ceres::Problem problem;
 
@@ -175,7 +175,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
 
       // Check that the target feature in camera coordinates is visible by the camera
       // Target features that project behind the camera tend to prevent the optimization from converging
-      if (!isPointVisible(internal_camera_to_wrist, internal_base_to_target, cost_fn))
+      if (!isPointVisible(internal_wrist_to_camera, internal_base_to_target, cost_fn))
       {
         throw std::runtime_error("Projected target feature lies behind the image plane using the "
                                  "current target mount and camera mount transform guesses. Try updating the initial "
@@ -183,7 +183,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
       }
 
       problem.AddResidualBlock(
-          cost_block, NULL, internal_camera_to_wrist.values.data(), internal_base_to_target.values.data());
+          cost_block, NULL, internal_wrist_to_camera.values.data(), internal_base_to_target.values.data());
     }
   }
 
@@ -196,7 +196,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
   ExtrinsicHandEyeResult result;
   result.converged = summary.termination_type == ceres::CONVERGENCE;
   result.target_mount_to_target = poseCalToEigen(internal_base_to_target);
-  result.camera_mount_to_camera = poseCalToEigen(internal_camera_to_wrist).inverse();
+  result.camera_mount_to_camera = poseCalToEigen(internal_wrist_to_camera);
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
 
@@ -215,7 +215,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
   }
 
   std::map<const double*, std::vector<std::string>> param_labels;
-  param_labels[internal_camera_to_wrist.values.data()] = labels_camera_mount_to_camera;
+  param_labels[internal_wrist_to_camera.values.data()] = labels_camera_mount_to_camera;
   param_labels[internal_base_to_target.values.data()] = labels_target_mount_to_target;
 
   result.covariance = rct_optimizations::computeCovariance(problem, param_labels);
@@ -226,7 +226,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& params)
 ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem3D3D& params)
 {
   Pose6d internal_base_to_target = poseEigenToCal(params.target_mount_to_target_guess);
-  Pose6d internal_camera_to_wrist = poseEigenToCal(params.camera_mount_to_camera_guess.inverse());
+  Pose6d internal_wrist_to_camera = poseEigenToCal(params.camera_mount_to_camera_guess);
 
   ceres::Problem problem;
 
@@ -246,7 +246,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem3D3D& params)
       auto* cost_block = new ceres::AutoDiffCostFunction<ObservationCost3D3D, 3, 6, 6>(cost_fn);
 
       problem.AddResidualBlock(
-          cost_block, NULL, internal_camera_to_wrist.values.data(), internal_base_to_target.values.data());
+          cost_block, NULL, internal_wrist_to_camera.values.data(), internal_base_to_target.values.data());
     }
   }
 
@@ -258,7 +258,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem3D3D& params)
   ExtrinsicHandEyeResult result;
   result.converged = summary.termination_type == ceres::CONVERGENCE;
   result.target_mount_to_target = poseCalToEigen(internal_base_to_target);
-  result.camera_mount_to_camera = poseCalToEigen(internal_camera_to_wrist).inverse();
+  result.camera_mount_to_camera = poseCalToEigen(internal_wrist_to_camera);
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
 
@@ -277,7 +277,7 @@ ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem3D3D& params)
   }
 
   std::map<const double*, std::vector<std::string>> param_labels;
-  param_labels[internal_camera_to_wrist.values.data()] = labels_camera_mount_to_camera;
+  param_labels[internal_wrist_to_camera.values.data()] = labels_camera_mount_to_camera;
   param_labels[internal_base_to_target.values.data()] = labels_target_mount_to_target;
 
   result.covariance = rct_optimizations::computeCovariance(problem, param_labels);
diff --git a/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp b/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp
index 39d0413..8d8f3bf 100644
--- a/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp
+++ b/rct_optimizations/src/rct_optimizations/extrinsic_multi_static_camera.cpp
@@ -23,10 +23,10 @@ public:
   }
 
   template <typename T>
-  bool operator()(const T* const pose_camera_to_base, const T* pose_wrist_to_target, T* residual) const
+  bool operator()(const T* const pose_base_to_camera, const T* pose_wrist_to_target, T* residual) const
   {
-    const T* camera_angle_axis = pose_camera_to_base + 0;
-    const T* camera_position = pose_camera_to_base + 3;
+    const T* camera_angle_axis = pose_base_to_camera + 0;
+    const T* camera_position = pose_base_to_camera + 3;
 
     const T* target_angle_axis = pose_wrist_to_target + 0;
     const T* target_position = pose_wrist_to_target + 3;
@@ -43,7 +43,7 @@ public:
 
     transformPoint(target_angle_axis, target_position, target_pt, link_point);
     poseTransformPoint(wrist_pose_, link_point, world_point);
-    transformPoint(camera_angle_axis, camera_position, world_point, camera_point);
+    inverseTransformPoint(camera_angle_axis, camera_position, world_point, camera_point);
 
     // Compute projected point into image plane and compute residual
     T xy_image[2];
@@ -69,15 +69,15 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraM
 {
   Pose6d internal_wrist_to_target = poseEigenToCal(params.wrist_to_target_guess);
 
-  std::vector<Pose6d> internal_camera_to_base;
-  internal_camera_to_base.resize(params.base_to_camera_guess.size());
+  std::vector<Pose6d> internal_base_to_camera;
+  internal_base_to_camera.resize(params.base_to_camera_guess.size());
 
   ceres::Problem problem;
 
   for (std::size_t c = 0; c < params.base_to_camera_guess.size(); ++c)  // For each camera
   {
     assert(params.image_observations[c].size() == params.wrist_poses[c].size());
-    internal_camera_to_base[c] = poseEigenToCal(params.base_to_camera_guess[c].inverse());
+    internal_base_to_camera[c] = poseEigenToCal(params.base_to_camera_guess[c]);
     for (std::size_t i = 0; i < params.wrist_poses[c].size(); ++i)  // For each wrist pose / image set
     {
       for (std::size_t j = 0; j < params.image_observations[c][i].size();
@@ -96,7 +96,7 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraM
         auto* cost_block = new ceres::AutoDiffCostFunction<ReprojectionCost, 2, 6, 6>(cost_fn);
 
         problem.AddResidualBlock(
-            cost_block, NULL, internal_camera_to_base[c].values.data(), internal_wrist_to_target.values.data());
+            cost_block, NULL, internal_base_to_camera[c].values.data(), internal_wrist_to_target.values.data());
       }
     }  // for each wrist pose
   }    // end for each camera
@@ -111,7 +111,7 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraM
   result.converged = summary.termination_type == ceres::CONVERGENCE;
 
   for (std::size_t i = 0; i < params.base_to_camera_guess.size(); ++i)
-    result.base_to_camera[i] = poseCalToEigen(internal_camera_to_base[i]).inverse();
+    result.base_to_camera[i] = poseCalToEigen(internal_base_to_camera[i]);
 
   result.wrist_to_target = poseCalToEigen(internal_wrist_to_target);
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
@@ -120,19 +120,19 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraM
   // collect parameter blocks so that order is consistent with labels; cameras without observations are not part of the
   // problem and have no covariance
   std::vector<const double*> param_blocks;
-  for (std::size_t c = 0; c < internal_camera_to_base.size(); c++)
+  for (std::size_t c = 0; c < internal_base_to_camera.size(); c++)
   {
-    if (problem.HasParameterBlock(internal_camera_to_base[c].values.data()))
-      param_blocks.push_back(internal_camera_to_base[c].values.data());
+    if (problem.HasParameterBlock(internal_base_to_camera[c].values.data()))
+      param_blocks.push_back(internal_base_to_camera[c].values.data());
   }
   param_blocks.push_back(internal_wrist_to_target.values.data());
 
   std::map<const double*, std::vector<std::string>> param_labels;
 
   // compose labels "camera_mount_to_camera_x", etc.
-  for (std::size_t index_camera = 0; index_camera < internal_camera_to_base.size(); index_camera++)
+  for (std::size_t index_camera = 0; index_camera < internal_base_to_camera.size(); index_camera++)
   {
-    if (!problem.HasParameterBlock(internal_camera_to_base[index_camera].values.data()))
+    if (!problem.HasParameterBlock(internal_base_to_camera[index_camera].values.data()))
       continue;
 
     std::vector<std::string> labels_base_to_camera;
@@ -141,7 +141,7 @@ rct_optimizations::optimize(const rct_optimizations::ExtrinsicMultiStaticCameraM
       labels_base_to_camera.emplace_back(params.label_base_to_camera + std::to_string(index_camera) + "_" +
                                          label_isometry);
     }
-    param_labels[internal_camera_to_base[index_camera].values.data()] = labels_base_to_camera;
+    param_labels[internal_base_to_camera[index_camera].values.data()] = labels_base_to_camera;
   }
 
   // compose labels "target_mount_to_target_x", etc.
-- 
2.43.0


From 2076c88baff0b047135fa4cd100c6db557a3359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 29/39] fix: report the covariance of the circle radius, not of
 its square root

---
 rct_optimizations/src/rct_optimizations/circle_fit.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/src/rct_optimizations/circle_fit.cpp b/rct_optimizations/src/rct_optimizations/circle_fit.cpp
index 706afe6..62ac653 100644
--- a/rct_optimizations/src/rct_optimizations/circle_fit.cpp
+++ b/rct_optimizations/src/rct_optimizations/circle_fit.cpp
@@ -46,7 +46,12 @@ rct_optimizations::CircleFitResult rct_optimizations::optimize(const rct_optimiz
   result.radius = pow(circle_params[2], 2);
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
-  result.covariance = rct_optimizations::computeCovariance(problem, param_block_labels);
+
+  // The optimized parameter is the square root of the radius; propagate its covariance to the radius
+  const Eigen::Vector3d dparams(1.0, 1.0, 2.0 * circle_params[2]);
+  const Eigen::MatrixXd cov = rct_optimizations::computeCovariance(problem, param_block_labels).covariance_matrix;
+  result.covariance =
+      rct_optimizations::computeCovarianceResults(dparams.asDiagonal() * cov * dparams.asDiagonal(), params.labels);
 
   return result;
 }
-- 
2.43.0


From 23d08cb25f2ec4c07fc6a7fe996dcaa49afc75f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 30/39] fix: do not report a standard deviation of one for a
 parameter without variance

---
 .../src/rct_optimizations/covariance_analysis.cpp        | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index 8f76ddf..845166a 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -39,12 +39,11 @@ Eigen::MatrixXd computeCorrelationsFromCovariance(const Eigen::MatrixXd& covaria
         out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = sigma_i;
       else
       {
-        if (sigma_i < std::numeric_limits<double>::epsilon())
-          sigma_i = 1;
-        if (sigma_j < std::numeric_limits<double>::epsilon())
-          sigma_j = 1;
+        // Do not divide by a standard deviation of zero, but do not modify the standard deviation for the diagonal either
+        const double norm_i = sigma_i < std::numeric_limits<double>::epsilon() ? 1 : sigma_i;
+        const double norm_j = sigma_j < std::numeric_limits<double>::epsilon() ? 1 : sigma_j;
 
-        out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = covariance_matrix(i, j) / (sigma_i * sigma_j);
+        out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = covariance_matrix(i, j) / (norm_i * norm_j);
       }
     }
   }
-- 
2.43.0


From 3b3a7ce0f29f3f4943ff9479fd3f9d4b3ebd7b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 31/39] fix: project points behind the camera like all others
 in the matrix overload of projectPoint

---
 .../include/rct_optimizations/ceres_math_utilities.h           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
index b0c7006..b994aef 100644
--- a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
+++ b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
@@ -81,7 +81,8 @@ inline Eigen::Matrix<T, 2, 1> projectPoint(const rct_optimizations::CameraIntrin
   scaled_point(2) = T(1.0);
 
   // Avoid divide by zero
-  if (std::abs(point.z() - T(0.0) > T(1.e-10)))
+  using std::abs;
+  if (abs(point.z() - T(0.0)) > T(1.e-10))
   {
     scaled_point.x() = point.x() / point.z();
     scaled_point.y() = point.y() / point.z();
-- 
2.43.0


From 4ab1ebc1a8aad7dcf8da099f3fa9fc7f6fc82f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:30 +0000
Subject: [PATCH 32/39] fix: draw detected circles in a fixed color instead of
 colors that depend on what was drawn before

---
 rct_image_tools/src/rct_image_tools/circle_detector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_image_tools/src/rct_image_tools/circle_detector.cpp b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
index ebe720e..a9772e5 100644
--- a/rct_image_tools/src/rct_image_tools/circle_detector.cpp
+++ b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
@@ -429,7 +429,8 @@ cv::Mat CircleDetector::drawDetectedCircles(const cv::Mat& image)
 
   // Draw the keypoints on the image
   const std::vector<cv::KeyPoint> keypoints = detectKeyPoints(centers, params);
-  cv::drawKeypoints(output, keypoints, output);
+  // (not in the default random colors, which would depend on what was drawn before)
+  cv::drawKeypoints(output, keypoints, output, cv::Scalar(0, 0, 255));
 
   return output;
 }
-- 
2.43.0


From 1445d930fdddbb6843d4171e4e1392d6f1d9ce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 33/39] fix: noise qualification evaluates each image, not the
 first one every time

---
 rct_examples/src/tools/noise_qualification_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_examples/src/tools/noise_qualification_2d.cpp b/rct_examples/src/tools/noise_qualification_2d.cpp
index 97f6e7d..7848641 100644
--- a/rct_examples/src/tools/noise_qualification_2d.cpp
+++ b/rct_examples/src/tools/noise_qualification_2d.cpp
@@ -62,7 +62,7 @@ int main(int argc, char** argv)
       // Each entry should have an image path. This path is relative to the root_path directory!
       const auto img_path = root[i]["image"].as<std::string>();
       const std::string image_name = data_path + "/" + img_path;
-      static cv::Mat image = readImageOpenCV(image_name);
+      const cv::Mat image = readImageOpenCV(image_name);
 
       // Find the observations in the image
       rct_image_tools::TargetFeatures target_features;
-- 
2.43.0


From cbda89b5405cdd4cc0c914c91628d558c6b29cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 34/39] fix: multi static camera tool reports an unreadable
 data set instead of dereferencing nothing

---
 rct_examples/src/tools/multi_static_camera_extrinsic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_examples/src/tools/multi_static_camera_extrinsic.cpp b/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
index 14a817e..c51ebf6 100644
--- a/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
+++ b/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
@@ -108,7 +108,7 @@ int main(int argc, char** argv)
       data_path[c] = get<std::string>(pnh, param_name);
 
       // Attempt to load the data set from the specified path
-      boost::optional<ExtrinsicDataSet> data_set = *parseFromFile(data_path[c]);
+      boost::optional<ExtrinsicDataSet> data_set = parseFromFile(data_path[c]);
       if (!data_set)
         throw std::runtime_error("Failed to parse data set from path = " + data_path[c]);
       maybe_data_set[c] = *data_set;
-- 
2.43.0


From 3d18ee811d1a7982eed3eb2bce1ae2c69816787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 35/39] fix: multi camera tools report zero cameras instead of
 reading past the data sets

---
 rct_examples/src/tools/multi_static_camera_extrinsic.cpp        | 2 ++
 .../src/tools/multi_static_camera_multi_step_extrinsic.cpp      | 2 ++
 rct_examples/src/tools/solve_multi_camera_pnp.cpp               | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/rct_examples/src/tools/multi_static_camera_extrinsic.cpp b/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
index c51ebf6..1098025 100644
--- a/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
+++ b/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
@@ -89,6 +89,8 @@ int main(int argc, char** argv)
   try
   {
     std::size_t num_of_cameras = static_cast<std::size_t>(get<int>(pnh, "num_of_cameras"));
+    if (num_of_cameras == 0)
+      throw std::runtime_error("'num_of_cameras' parameter must not be zero");
 
     ExtrinsicMultiStaticCameraMovingTargetProblem problem_def;
     std::vector<std::string> data_path;
diff --git a/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp b/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
index e85653b..365217f 100644
--- a/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
+++ b/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
@@ -86,6 +86,8 @@ int main(int argc, char** argv)
   try
   {
     std::size_t num_of_cameras = static_cast<std::size_t>(get<int>(pnh, "num_of_cameras"));
+    if (num_of_cameras == 0)
+      throw std::runtime_error("'num_of_cameras' parameter must not be zero");
 
     ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem problem_wrist_def;
     ExtrinsicMultiStaticCameraOnlyProblem problem_def;
diff --git a/rct_examples/src/tools/solve_multi_camera_pnp.cpp b/rct_examples/src/tools/solve_multi_camera_pnp.cpp
index c7b2ed1..9114c4e 100644
--- a/rct_examples/src/tools/solve_multi_camera_pnp.cpp
+++ b/rct_examples/src/tools/solve_multi_camera_pnp.cpp
@@ -94,6 +94,8 @@ int main(int argc, char** argv)
   try
   {
     std::size_t num_of_cameras = static_cast<std::size_t>(get<int>(pnh, "num_of_cameras"));
+    if (num_of_cameras == 0)
+      throw std::runtime_error("'num_of_cameras' parameter must not be zero");
 
     std::vector<Eigen::Isometry3d> base_to_camera;
     std::vector<CameraIntrinsics> intr;
-- 
2.43.0


From 565a5fa28fbe92c54dbee1053b30962551042be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 36/39] fix: intrinsic calibration tool reports a data set
 without images

---
 rct_examples/src/tools/intrinsic_calibration.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rct_examples/src/tools/intrinsic_calibration.cpp b/rct_examples/src/tools/intrinsic_calibration.cpp
index c75efe7..6a846c1 100644
--- a/rct_examples/src/tools/intrinsic_calibration.cpp
+++ b/rct_examples/src/tools/intrinsic_calibration.cpp
@@ -93,6 +93,8 @@ int main(int argc, char** argv)
     if (!maybe_data_set)
       throw std::runtime_error("Failed to parse data set from path = " + data_path);
     auto& data_set = *maybe_data_set;
+    if (data_set.images.empty())
+      throw std::runtime_error("No images in data set from path = " + data_path);
 
     // Load the target finder
     auto target_finder_config = get<XmlRpc::XmlRpcValue>(pnh, "target_finder");
-- 
2.43.0


From 0380393dfa539deca899aa1db03f7bade2ce4af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 37/39] fix: programs report a mistyped target finder parameter
 instead of terminating

---
 .../src/tools/camera_intrinsic_calibration_validation.cpp   | 6 ++++++
 rct_examples/src/tools/camera_on_wrist_extrinsic.cpp        | 6 ++++++
 rct_examples/src/tools/intrinsic_calibration.cpp            | 6 ++++++
 rct_examples/src/tools/multi_static_camera_extrinsic.cpp    | 6 ++++++
 .../src/tools/multi_static_camera_multi_step_extrinsic.cpp  | 6 ++++++
 rct_examples/src/tools/noise_qualification_2d.cpp           | 6 ++++++
 rct_examples/src/tools/solve_multi_camera_pnp.cpp           | 6 ++++++
 rct_examples/src/tools/solve_pnp.cpp                        | 6 ++++++
 rct_examples/src/tools/static_camera_extrinsic.cpp          | 6 ++++++
 rct_ros_tools/src/command_line_cal.cpp                      | 6 ++++++
 10 files changed, 60 insertions(+)

diff --git a/rct_examples/src/tools/camera_intrinsic_calibration_validation.cpp b/rct_examples/src/tools/camera_intrinsic_calibration_validation.cpp
index f71ee93..dad90be 100644
--- a/rct_examples/src/tools/camera_intrinsic_calibration_validation.cpp
+++ b/rct_examples/src/tools/camera_intrinsic_calibration_validation.cpp
@@ -13,6 +13,7 @@
 #include <opencv2/imgproc.hpp>
 #include <pluginlib/class_loader.h>
 #include <ros/ros.h>
+#include <xmlrpcpp/XmlRpcException.h>
 
 using namespace rct_optimizations;
 using namespace rct_image_tools;
@@ -145,6 +146,11 @@ int main(int argc, char** argv)
     ROS_ERROR_STREAM(ex.what());
     return -1;
   }
+  catch (const XmlRpc::XmlRpcException& ex)
+  {
+    ROS_ERROR_STREAM(ex.getMessage());
+    return -1;
+  }
 
   return 0;
 }
diff --git a/rct_examples/src/tools/camera_on_wrist_extrinsic.cpp b/rct_examples/src/tools/camera_on_wrist_extrinsic.cpp
index 96ad400..2659613 100644
--- a/rct_examples/src/tools/camera_on_wrist_extrinsic.cpp
+++ b/rct_examples/src/tools/camera_on_wrist_extrinsic.cpp
@@ -15,6 +15,7 @@
 #include <opencv2/highgui/highgui.hpp>
 #include <pluginlib/class_loader.h>
 #include <ros/ros.h>
+#include <xmlrpcpp/XmlRpcException.h>
 #include <opencv2/imgproc.hpp>
 
 using namespace rct_optimizations;
@@ -163,6 +164,11 @@ int main(int argc, char** argv)
     ROS_ERROR_STREAM(ex.what());
     return -1;
   }
+  catch (const XmlRpc::XmlRpcException& ex)
+  {
+    ROS_ERROR_STREAM(ex.getMessage());
+    return -1;
+  }
 
   return 0;
 }
diff --git a/rct_examples/src/tools/intrinsic_calibration.cpp b/rct_examples/src/tools/intrinsic_calibration.cpp
index 6a846c1..6f3e588 100644
--- a/rct_examples/src/tools/intrinsic_calibration.cpp
+++ b/rct_examples/src/tools/intrinsic_calibration.cpp
@@ -11,6 +11,7 @@
 #include <opencv2/highgui.hpp>
 #include <pluginlib/class_loader.h>
 #include <ros/ros.h>
+#include <xmlrpcpp/XmlRpcException.h>
 
 using namespace rct_optimizations;
 using namespace rct_image_tools;
@@ -168,6 +169,11 @@ int main(int argc, char** argv)
     ROS_ERROR_STREAM(ex.what());
     return -1;
   }
+  catch (const XmlRpc::XmlRpcException& ex)
+  {
+    ROS_ERROR_STREAM(ex.getMessage());
+    return -1;
+  }
 
   return 0;
 }
diff --git a/rct_examples/src/tools/multi_static_camera_extrinsic.cpp b/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
index 1098025..220ca7a 100644
--- a/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
+++ b/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
@@ -15,6 +15,7 @@
 #include <rct_optimizations/ceres_math_utilities.h>
 #include <rct_optimizations/experimental/multi_camera_pnp.h>
 #include <ros/ros.h>
+#include <xmlrpcpp/XmlRpcException.h>
 
 using namespace rct_optimizations;
 using namespace rct_image_tools;
@@ -233,6 +234,11 @@ int main(int argc, char** argv)
     ROS_ERROR_STREAM(ex.what());
     return -1;
   }
+  catch (const XmlRpc::XmlRpcException& ex)
+  {
+    ROS_ERROR_STREAM(ex.getMessage());
+    return -1;
+  }
 
   return 0;
 }
diff --git a/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp b/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
index 365217f..dadb61f 100644
--- a/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
+++ b/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
@@ -13,6 +13,7 @@
 #include <opencv2/highgui.hpp>
 #include <opencv2/imgproc.hpp>
 #include <ros/ros.h>
+#include <xmlrpcpp/XmlRpcException.h>
 #include <rct_optimizations/ceres_math_utilities.h>
 #include <rct_optimizations/experimental/multi_camera_pnp.h>
 #include <pluginlib/class_loader.h>
@@ -249,6 +250,11 @@ int main(int argc, char** argv)
     ROS_ERROR_STREAM(ex.what());
     return -1;
   }
+  catch (const XmlRpc::XmlRpcException& ex)
+  {
+    ROS_ERROR_STREAM(ex.getMessage());
+    return -1;
+  }
 
   return 0;
 }
diff --git a/rct_examples/src/tools/noise_qualification_2d.cpp b/rct_examples/src/tools/noise_qualification_2d.cpp
index 7848641..d4807a5 100644
--- a/rct_examples/src/tools/noise_qualification_2d.cpp
+++ b/rct_examples/src/tools/noise_qualification_2d.cpp
@@ -8,6 +8,7 @@
 #include <opencv2/highgui.hpp>
 #include <pluginlib/class_loader.h>
 #include <ros/ros.h>
+#include <xmlrpcpp/XmlRpcException.h>
 #include <yaml-cpp/yaml.h>
 
 using namespace rct_optimizations;
@@ -112,6 +113,11 @@ int main(int argc, char** argv)
     ROS_ERROR_STREAM(ex.what());
     return -1;
   }
+  catch (const XmlRpc::XmlRpcException& ex)
+  {
+    ROS_ERROR_STREAM(ex.getMessage());
+    return -1;
+  }
 
   return 0;
 }
diff --git a/rct_examples/src/tools/solve_multi_camera_pnp.cpp b/rct_examples/src/tools/solve_multi_camera_pnp.cpp
index 9114c4e..cc117d6 100644
--- a/rct_examples/src/tools/solve_multi_camera_pnp.cpp
+++ b/rct_examples/src/tools/solve_multi_camera_pnp.cpp
@@ -17,6 +17,7 @@
 #include <opencv2/imgproc.hpp>
 #include <pluginlib/class_loader.h>
 #include <ros/ros.h>
+#include <xmlrpcpp/XmlRpcException.h>
 
 using namespace rct_optimizations;
 using namespace rct_image_tools;
@@ -165,6 +166,11 @@ int main(int argc, char** argv)
     ROS_ERROR_STREAM(ex.what());
     return -1;
   }
+  catch (const XmlRpc::XmlRpcException& ex)
+  {
+    ROS_ERROR_STREAM(ex.getMessage());
+    return -1;
+  }
 
   return 0;
 }
diff --git a/rct_examples/src/tools/solve_pnp.cpp b/rct_examples/src/tools/solve_pnp.cpp
index 52adb3d..95649ce 100644
--- a/rct_examples/src/tools/solve_pnp.cpp
+++ b/rct_examples/src/tools/solve_pnp.cpp
@@ -14,6 +14,7 @@
 #include <opencv2/calib3d/calib3d.hpp>
 #include <pluginlib/class_loader.h>
 #include <ros/ros.h>
+#include <xmlrpcpp/XmlRpcException.h>
 
 using namespace rct_optimizations;
 using namespace rct_image_tools;
@@ -124,6 +125,11 @@ int main(int argc, char** argv)
     ROS_ERROR_STREAM(ex.what());
     return -1;
   }
+  catch (const XmlRpc::XmlRpcException& ex)
+  {
+    ROS_ERROR_STREAM(ex.getMessage());
+    return -1;
+  }
 
   return 0;
 }
diff --git a/rct_examples/src/tools/static_camera_extrinsic.cpp b/rct_examples/src/tools/static_camera_extrinsic.cpp
index 630653a..1a39673 100644
--- a/rct_examples/src/tools/static_camera_extrinsic.cpp
+++ b/rct_examples/src/tools/static_camera_extrinsic.cpp
@@ -14,6 +14,7 @@
 #include <opencv2/imgproc.hpp>
 #include <pluginlib/class_loader.h>
 #include <ros/ros.h>
+#include <xmlrpcpp/XmlRpcException.h>
 
 using namespace rct_optimizations;
 using namespace rct_image_tools;
@@ -157,6 +158,11 @@ int main(int argc, char** argv)
     ROS_ERROR_STREAM(ex.what());
     return -1;
   }
+  catch (const XmlRpc::XmlRpcException& ex)
+  {
+    ROS_ERROR_STREAM(ex.getMessage());
+    return -1;
+  }
 
   return 0;
 }
diff --git a/rct_ros_tools/src/command_line_cal.cpp b/rct_ros_tools/src/command_line_cal.cpp
index a265c4d..9c0efd7 100644
--- a/rct_ros_tools/src/command_line_cal.cpp
+++ b/rct_ros_tools/src/command_line_cal.cpp
@@ -8,6 +8,7 @@
 #include <opencv2/highgui.hpp>
 #include <pluginlib/class_loader.h>
 #include <ros/ros.h>
+#include <xmlrpcpp/XmlRpcException.h>
 #include <std_srvs/Empty.h>
 #include <tf2_ros/transform_listener.h>
 #include <tf2_eigen/tf2_eigen.h>
@@ -254,6 +255,11 @@ int main(int argc, char** argv)
     ROS_ERROR_STREAM(ex.what());
     return -1;
   }
+  catch (const XmlRpc::XmlRpcException& ex)
+  {
+    ROS_ERROR_STREAM(ex.getMessage());
+    return -1;
+  }
 
   return 0;
 }
-- 
2.43.0


From 2096f31172fa29cf3add3bb5bec6c3c406ff6f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 38/39] fix: kinematic observations compare their
 correspondences, and joints of different number are unequal

---
 rct_optimizations/include/rct_optimizations/types.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/types.h b/rct_optimizations/include/rct_optimizations/types.h
index dcb82f4..69f33c5 100644
--- a/rct_optimizations/include/rct_optimizations/types.h
+++ b/rct_optimizations/include/rct_optimizations/types.h
@@ -145,8 +145,10 @@ struct KinematicObservation
 
   inline bool operator==(const KinematicObservation& rhs) const
   {
-    return camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
-           target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == correspondence_set;
+    return camera_chain_joints.size() == rhs.camera_chain_joints.size() &&
+           target_chain_joints.size() == rhs.target_chain_joints.size() &&
+           camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
+           target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == rhs.correspondence_set;
   }
 
   /** @brief A set of feature correspondences between the sensor output and target */
@@ -178,7 +180,9 @@ struct KinematicMeasurement
 
   inline bool operator==(const KinematicMeasurement& rhs) const
   {
-    return camera_to_target.isApprox(rhs.camera_to_target) && camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
+    return camera_chain_joints.size() == rhs.camera_chain_joints.size() &&
+           target_chain_joints.size() == rhs.target_chain_joints.size() &&
+           camera_to_target.isApprox(rhs.camera_to_target) && camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
            target_chain_joints.isApprox(rhs.target_chain_joints);
   }
 
-- 
2.43.0


From 786d2a6a9f299c950930d82d93825661f880b90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:43 +0000
Subject: [PATCH 39/39] fix: kinematic calibration refuses an observation with
 more joint values than the chain has joints

---
 .../dh_chain_kinematic_calibration.cpp              | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp b/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
index baf2bd3..cec63fc 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain_kinematic_calibration.cpp
@@ -69,6 +69,15 @@ void printOptimizationLabels(ceres::Problem& problem,
   }
 }
 
+// The cost functions are evaluated in threads of the solver, out of which no exception can be passed on to the caller
+template <typename ObservationT>
+static void checkJointCounts(const ObservationT& observation, const DHChain& camera_chain, const DHChain& target_chain)
+{
+  if (observation.camera_chain_joints.size() > static_cast<Eigen::Index>(camera_chain.dof()) ||
+      observation.target_chain_joints.size() > static_cast<Eigen::Index>(target_chain.dof()))
+    throw OptimizationException("Observation has more joint values than the kinematic chain has joints");
+}
+
 KinematicCalibrationResult optimize(const KinematicCalibrationProblem2D3D& params)
 {
   // Initialize the optimization variables
@@ -174,6 +183,8 @@ KinematicCalibrationResult optimize(const KinematicCalibrationProblem2D3D& param
 
   for (const auto& observation : params.observations)
   {
+    checkJointCounts(observation, params.camera_chain, params.target_chain);
+
     for (const auto& correspondence : observation.correspondence_set)
     {
       // Allocate Ceres data structures - ownership is taken by the ceres
@@ -409,6 +420,8 @@ KinematicCalibrationResult optimize(const KinematicCalibrationProblemPose6D& par
 
   for (const auto& observation : params.observations)
   {
+    checkJointCounts(observation, params.camera_chain, params.target_chain);
+
     // Allocate Ceres data structures - ownership is taken by the ceres
     // Problem data structure
     auto* cost_fn =
-- 
2.43.0

