From 10c8dc2aa0ad0f280ed09f0fb78ff5cd669c4b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 01/24] fix: save the parameters of the cameras of every group

The output file was released inside the loop over the camera groups, so
only the cameras of the first group were written.
---
 McCalib/src/McCalib.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index c2eda02..f5fcba3 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -378,9 +378,9 @@ void Calibration::saveCamerasParams() {
           ? save_path_ / camera_params_file_name_
           : save_path_ / "calibrated_cameras_data.yml";
   cv::FileStorage fs(save_path_camera_params, cv::FileStorage::WRITE);
+  fs << "nb_camera" << static_cast<int>(nb_camera_);
   for (const auto &it_cam_group : cam_group_) {
     std::shared_ptr<CameraGroup> cur_cam_group = it_cam_group.second;
-    fs << "nb_camera" << static_cast<int>(nb_camera_);
     for (const auto &it_cam : cur_cam_group->cameras_) {
       std::shared_ptr<Camera> cur_cam = it_cam.second.lock();
       if (cur_cam) {
@@ -399,9 +399,8 @@ void Calibration::saveCamerasParams() {
            << cur_cam_group->getCameraPoseMat(cur_cam->cam_idx_).inv() << "}";
       }
     }
-
-    fs.release();
   }
+  fs.release();
 }
 
 /**
-- 
2.43.0


From f8ab141f8831d367f6dad575f2dd696d92297da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 02/24] fix: read the quaternion_averaging option

A colon in the key made the lookup fail, so the option was always off.
---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index f5fcba3..4642f69 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -54,7 +54,7 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
   fs["number_y_square"] >> nb_y_square;
   root_path_ = convertStrToPath(fs["root_path"]);
   fs["cam_prefix"] >> cam_prefix_;
-  fs["quaternion_averaging:"] >> quaternion_averaging_;
+  fs["quaternion_averaging"] >> quaternion_averaging_;
   fs["ransac_threshold"] >> ransac_thresh_;
   fs["number_iterations"] >> nb_iterations_;
   fs["distortion_model"] >> distortion_model;
-- 
2.43.0


From c554b38819133118cb8d1cb397428681464d2bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 03/24] fix: create each merged object observation once

The observations of every object were created once per object, so with N
objects left after a merge every observation existed N times.
---
 McCalib/src/McCalib.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 4642f69..c945aca 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1850,12 +1850,8 @@ void Calibration::mergeAllObjectObs() {
   object_observations_.clear();
 
   // Reinitialize all the 3D object
-  for (const auto &it_object : object_3d_) {
-    (void)it_object;
-    // Reinitialize all object obserations
-    for (const auto &it : object_3d_)
-      this->init3DObjectObs(it.first);
-  }
+  for (const auto &it : object_3d_)
+    this->init3DObjectObs(it.first);
 }
 
 /**
-- 
2.43.0


From 6a97c352ea1ecf78a7b15d3dfac036c36e9ae22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 04/24] fix: chain the poses of cameras and camera groups in
 the right order

The pose of a camera (or of a group) reached through two or more
intermediate relative poses was composed in reverse order.
---
 McCalib/src/McCalib.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index c945aca..52b3bdc 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1128,8 +1128,8 @@ void Calibration::initCameraGroup() {
           std::pair<int, int> cam_pair_idx =
               std::make_pair(current_cam, next_cam);
           cv::Mat current_trans = inter_camera_transform_[cam_pair_idx];
-          // transform = transform * current_trans.inv();
-          transform = transform * current_trans;
+          // the poses map a camera to the next one: the last one goes first
+          transform = current_trans * transform;
         }
       }
       // Store the relative camera transformation in the object
@@ -1564,8 +1564,8 @@ void Calibration::mergeCameraGroup() {
               std::make_pair(current_group, next_group);
           cv::Mat current_trans =
               no_overlap_camgroup_pair_pose_[group_pair_idx];
-          // transform = transform * current_trans.inv();
-          transform = transform * current_trans;
+          // the poses map a group to the next one: the last one goes first
+          transform = current_trans * transform;
         }
       }
       // Store the poses
-- 
2.43.0


From e2b95ef0d0f4d8225217b60fdd83c942373287ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 05/24] fix: forget the poses between camera groups once they
 are merged

The merge renumbers the groups.  The next merge looked the old poses up
with the new numbers and joined unrelated groups with a wrong pose.
---
 McCalib/src/McCalib.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 52b3bdc..7c18a1c 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1606,6 +1606,9 @@ void Calibration::mergeCameraGroup() {
   // Erase previous camera group and replace it with the merged one
   cam_group_.clear();
   cam_group_ = cam_group;
+  // The relative poses refer to groups which do not exist anymore
+  no_overlap_camgroup_pair_pose_.clear();
+  no_overlap__camgroup_pair_common_cnt_.clear();
 }
 
 /**
-- 
2.43.0


From 7e94f99c385ec889c92a5b61d91cea7df26a7bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 06/24] fix: save the object poses with respect to the
 reference camera

The file holds no camera index, and the documentation promises poses in
the reference camera; it held poses in whichever camera saw the object.
---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 7c18a1c..dcfbabd 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -465,7 +465,7 @@ void Calibration::save3DObjPose() {
       std::shared_ptr<Object3DObs> cur_object_obs = it_obj_obs.second.lock();
       if (cur_object_obs) {
         cv::Mat rot, trans;
-        cur_object_obs->getPoseVec(rot, trans);
+        cur_object_obs->getPoseInGroupVec(rot, trans);
         pose_mat.at<double>(0, a) = rot.at<double>(0);
         pose_mat.at<double>(1, a) = rot.at<double>(1);
         pose_mat.at<double>(2, a) = rot.at<double>(2);
-- 
2.43.0


From 270fb08519b6c828af0e50cd9619b86e3a811106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 07/24] fix: list only the frames of a camera group in its
 error log

The list went on growing from one group to the next.
---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index dcfbabd..7131132 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -2250,7 +2250,6 @@ void Calibration::saveReprojectionErrorToFile() {
   const std::filesystem::path save_reprojection_error =
       save_path_ / "reprojection_error_data.yml";
   cv::FileStorage fs(save_reprojection_error, cv::FileStorage::WRITE);
-  cv::Mat frame_list;
   int nb_cam_group = cam_group_.size();
   fs << "nb_camera_group" << nb_cam_group;
 
@@ -2258,6 +2257,7 @@ void Calibration::saveReprojectionErrorToFile() {
     int cam_group_idx = it.second->cam_group_idx_;
     fs << "camera_group_" + std::to_string(cam_group_idx);
     fs << "{";
+    cv::Mat frame_list;
     std::shared_ptr<CameraGroup> cur_cam_group = it.second;
     // iterate through frames
     for (const auto &it_frame : cur_cam_group->frames_) {
-- 
2.43.0


From 8a154f3d91127918ad971fcc4114aa2bc1132185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 08/24] fix: register a frame with every camera and board seen
 in it

Only the first observation of a frame did so.
---
 McCalib/src/McCalib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 7131132..34ebc79 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -620,9 +620,9 @@ void Calibration::insertNewBoard(const int cam_idx, const int frame_idx,
         std::make_shared<Frame>(frame_idx, cam_idx, frame_path);
     frames_[frame_idx] = newFrame; // Initialize the Frame if key does not exist
     frames_[frame_idx]->insertNewBoard(new_board);
-    cams_[cam_idx]->insertNewFrame(newFrame);
-    boards_3d_[board_idx]->insertNewFrame(newFrame);
   }
+  cams_[cam_idx]->insertNewFrame(frames_[frame_idx]);
+  boards_3d_[board_idx]->insertNewFrame(frames_[frame_idx]);
 
   // Add CamObs in the CamobsList and frame
   std::pair<int, int> cam_frame_idx = std::make_pair(cam_idx, frame_idx);
-- 
2.43.0


From dcabd696692a647eb5e28c57d06d21832aa93d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 09/24] fix: keep fractional distances in the shortest path
 search

The weights are 1 / number of co-visibilities; as integers all the
distances were 0 and the path was not the shortest.
---
 McCalib/src/Graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index a985791..43e426d 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -115,7 +115,7 @@ std::vector<int> Graph::shortestPathBetween(const int v1, const int v2) {
   std::vector<int> d(boost::num_vertices(graph_));
 
   const int num_vertices = boost::num_vertices(graph_);
-  std::vector<int> distances(num_vertices);
+  std::vector<double> distances(num_vertices);
   std::vector<Vertex> p_map(num_vertices);
 
   auto distance_map =
-- 
2.43.0


From 54d676a032a9ab57cc9b5e03c0d9c17af9cbf6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 10/24] fix: return no path between two disconnected vertices

The search for the path never ended.
---
 McCalib/src/Graph.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index 43e426d..14ca7b3 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -127,6 +127,10 @@ std::vector<int> Graph::shortestPathBetween(const int v1, const int v2) {
 
   boost::dijkstra_shortest_paths(graph_, idx_to_vertex_[v1], distance_map);
 
+  // a vertex which was not reached is its own predecessor: there is no path
+  if (v1 != v2 && p_map[idx_to_vertex_[v2]] == idx_to_vertex_[v2])
+    return vert_in_path;
+
   vert_in_path = Graph::getPath(p_map, idx_to_vertex_[v1], idx_to_vertex_[v2]);
 
   return vert_in_path;
-- 
2.43.0


From cdfa0572fddb71ed01a5025455588821d590be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 11/24] fix: use the square counts per board without sizes per
 board, and back

A board with its own number of squares but the common square size (or the
other way round) was given the wrong number of corners.
---
 McCalib/src/Board.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/McCalib/src/Board.cpp b/McCalib/src/Board.cpp
index ab8e854..1c8bf4a 100644
--- a/McCalib/src/Board.cpp
+++ b/McCalib/src/Board.cpp
@@ -46,17 +46,20 @@ Board::Board(const std::filesystem::path &config_path, const int board_idx,
   }
 
   if (square_size_per_board.size() == 0) {
-    fs["number_x_square"] >> nb_x_square_;
-    fs["number_y_square"] >> nb_y_square_;
     fs["length_square"] >> length_square_;
     fs["length_marker"] >> length_marker_;
     fs["resolution_x"] >> res_x_;
     fs["resolution_y"] >> res_y_;
     fs["square_size"] >> square_size_;
+  } else {
+    square_size_ = square_size_per_board[boards_index[board_idx]];
+  }
+  if (number_x_square_per_board.size() == 0) {
+    fs["number_x_square"] >> nb_x_square_;
+    fs["number_y_square"] >> nb_y_square_;
   } else {
     nb_x_square_ = number_x_square_per_board[boards_index[board_idx]];
     nb_y_square_ = number_y_square_per_board[boards_index[board_idx]];
-    square_size_ = square_size_per_board[boards_index[board_idx]];
   }
 
   fs.release(); // close the input file
-- 
2.43.0


From c4d3a9f719bed4adff5ff31b5e19143c383ba7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 12/24] fix: calibrate both groups when the bootstrapped
 hand-eye falls back

The fallback calibrated the first group against itself.
---
 McCalib/src/geometrytools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index a4af8b6..b35cad3 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -680,7 +680,7 @@ cv::Mat handeyeBootstraptTranslationCalibration(
     return pose_g1_g2;
   } else {
     LOG_INFO << "Run the normal handeye calibration on all the samples";
-    cv::Mat pose_g1_g2 = handeyeCalibration(pose_abs_1, pose_abs_1);
+    cv::Mat pose_g1_g2 = handeyeCalibration(pose_abs_1, pose_abs_2);
     return pose_g1_g2;
   }
 }
-- 
2.43.0


From 839e92a4b2e46f9e593b2afd65371bac9de2d74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 13/24] fix: do not pick more clusters than there are

With 4 or 5 common frames the hand-eye calibration read past the end of
the list of clusters.
---
 McCalib/src/geometrytools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index b35cad3..1124969 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -635,7 +635,7 @@ cv::Mat handeyeBootstraptTranslationCalibration(
 
   std::vector<double> r1_he, r2_he, r3_he; // structure to save valid rot
   std::vector<double> t1_he, t2_he, t3_he; // structure to save valid trans
-  const unsigned int nb_clust_pick = 6;
+  const unsigned int nb_clust_pick = std::min(6u, num_clusters);
   unsigned int nb_success = 0;
   for (unsigned int iter = 0; iter < nb_it; iter++) {
     std::vector<cv::Mat> r_cam_group_1, t_cam_group_1, r_cam_group_2,
-- 
2.43.0


From 5ada7399c305203f5a2caff766b00baea6a2ab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 14/24] fix: check the hand-eye solution on pairs of different
 poses

Each pose was compared with itself, and the check only passed for groups
of cameras which look in (nearly) the same direction.
---
 McCalib/src/geometrytools.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 1124969..40c1912 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -583,11 +583,12 @@ double checkSetConsistency(const std::vector<cv::Mat> &pose_abs_1,
     cv::Mat pose_cam_group_2_1 = pose_abs_2[selected_poses_idxs[i]];
     for (unsigned int j = 0; j < selected_poses_idxs.size(); j++) {
       if (i != j) {
-        cv::Mat pose_cam_group_1_2 = pose_abs_1[selected_poses_idxs[i]];
-        cv::Mat pose_cam_group_2_2 = pose_abs_2[selected_poses_idxs[i]];
-        cv::Mat PP1 = pose_cam_group_1_2.inv() * pose_cam_group_1_1;
-        cv::Mat PP2 = pose_cam_group_2_1.inv() * pose_cam_group_2_2;
-        cv::Mat ErrMat = PP2.inv() * pose_g1_g2 * PP1 * pose_g1_g2;
+        cv::Mat pose_cam_group_1_2 = pose_abs_1[selected_poses_idxs[j]];
+        cv::Mat pose_cam_group_2_2 = pose_abs_2[selected_poses_idxs[j]];
+        // motions of both groups: PP1 * pose_g1_g2 = pose_g1_g2 * PP2
+        cv::Mat PP1 = pose_cam_group_1_2 * pose_cam_group_1_1.inv();
+        cv::Mat PP2 = pose_cam_group_2_2 * pose_cam_group_2_1.inv();
+        cv::Mat ErrMat = PP2.inv() * pose_g1_g2.inv() * PP1 * pose_g1_g2;
         cv::Mat ErrRot, ErrTrans;
         Proj2RT(ErrMat, ErrRot, ErrTrans);
         cv::Mat ErrRotMat;
-- 
2.43.0


From 0e1fa6cb9ce5aa393ae5dff491efd7734ff80bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 15/24] fix: do not sample 4 points out of fewer

The pose estimation read past the end of a list of less than 4 points.
---
 McCalib/src/geometrytools.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/McCalib/src/geometrytools.cpp b/McCalib/src/geometrytools.cpp
index 40c1912..b2c03c6 100644
--- a/McCalib/src/geometrytools.cpp
+++ b/McCalib/src/geometrytools.cpp
@@ -240,6 +240,8 @@ cv::Mat ransacP3P(const std::vector<cv::Point3f> &scenePoints,
   int N = it;
   int trialcount = 0;
   cv::Mat InliersR;
+  if (imagePoints.size() < 4)
+    return InliersR; // not enough points to estimate a pose
   int countit = 0;
   int BestInNb = 0;
   double myepsilon = 0.00001; // small value for numerical problem
-- 
2.43.0


From 72c7ae5d045cf1fffa9969cda6958b1f2e40c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 16/24] fix: leave invalid board observations out of the 3D
 objects

Their pose is not known, but it was used to relate boards to each other.
---
 McCalib/src/McCalib.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 34ebc79..0b0a6ef 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -741,11 +741,11 @@ void Calibration::computeBoardsPairPose() {
     {
       for (const auto &it1 : current_board->board_observations_) {
         auto board1_obs_ptr = it1.second.lock();
-        if (board1_obs_ptr) {
+        if (board1_obs_ptr && board1_obs_ptr->valid_) {
           int boardid1 = board1_obs_ptr->board_id_;
           for (const auto &it2 : current_board->board_observations_) {
             auto board2_obs_ptr = it2.second.lock();
-            if (board2_obs_ptr) {
+            if (board2_obs_ptr && board2_obs_ptr->valid_) {
               int boardid2 = board2_obs_ptr->board_id_;
               cv::Mat proj_1 = board1_obs_ptr->getPoseMat();
               if (boardid1 != boardid2) // We do not care about the
@@ -949,7 +949,7 @@ void Calibration::init3DObjectObs(const int object_idx) {
         current_camobs->board_observations_;
     for (const auto &it_board_obs : current_board_obs) {
       auto board_obs_ptr = it_board_obs.second.lock();
-      if (board_obs_ptr) {
+      if (board_obs_ptr && board_obs_ptr->valid_) {
         // Check if this board correspond to the object of interest
         std::map<int, std::weak_ptr<Board>>::iterator it =
             object_3d_[object_idx]->boards_.find(board_obs_ptr->board_id_);
-- 
2.43.0


From 3bd53e2e219c70e8147eca4c3f17a77e995142fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 17/24] fix: survive a board observation which lost all its
 points

Projecting an empty list of points throws, which ended the calibration.
---
 McCalib/src/BoardObs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/McCalib/src/BoardObs.cpp b/McCalib/src/BoardObs.cpp
index dd83468..d802747 100644
--- a/McCalib/src/BoardObs.cpp
+++ b/McCalib/src/BoardObs.cpp
@@ -171,6 +171,9 @@ float BoardObs::computeReprojectionError() {
     if (board_3d_ptr)
       board_pts_temp.emplace_back(board_3d_ptr->pts_3d_[charuco_id]);
   }
+  // An observation may have lost all its points as outliers
+  if (board_pts_temp.empty())
+    return 0.f;
   // Project the 3D pts on the image
   std::vector<cv::Point2f> repro_pts;
   std::vector<float> error_board_vec;
-- 
2.43.0


From 190e809de0d86621c639552e93f07ba92424f151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 18/24] fix: generate boards with sizes but without square
 counts per board

---
 .../src/create_charuco_boards.cpp              | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/apps/create_charuco_boards/src/create_charuco_boards.cpp b/apps/create_charuco_boards/src/create_charuco_boards.cpp
index b0fabec..db544aa 100644
--- a/apps/create_charuco_boards/src/create_charuco_boards.cpp
+++ b/apps/create_charuco_boards/src/create_charuco_boards.cpp
@@ -41,7 +41,6 @@ int main(int argc, char *argv[]) {
   float length_square, length_marker;
   std::vector<int> number_x_square_per_board, number_y_square_per_board;
   std::vector<int> resolution_x_per_board, resolution_y_per_board;
-  std::vector<double> square_size_per_board;
   cv::FileStorage fs; // FileStorage to read calibration params from file
   const bool is_file_available = std::filesystem::exists(pathInt) &&
                                  pathInt.has_filename() &&
@@ -62,7 +61,6 @@ int main(int argc, char *argv[]) {
   assert(NbBoard > 0);
   const unsigned int num_board = static_cast<unsigned int>(NbBoard);
 
-  fs["square_size_per_board"] >> square_size_per_board;
   fs["number_x_square_per_board"] >> number_x_square_per_board;
   fs["number_y_square_per_board"] >> number_y_square_per_board;
   fs["resolution_x_per_board"] >> resolution_x_per_board;
@@ -70,14 +68,14 @@ int main(int argc, char *argv[]) {
 
   fs.release(); // close the input file
 
-  // Check if multi-size boards are used or not
-  if (square_size_per_board.size() == 0) {
-    for (std::size_t i = 0; i < num_board; i++) {
-      number_x_square_per_board.push_back(num_x_square);
-      number_y_square_per_board.push_back(num_y_square);
-      resolution_x_per_board.push_back(res_x);
-      resolution_y_per_board.push_back(res_y);
-    }
+  // Use the common values where no value per board is given
+  if (number_x_square_per_board.size() == 0) {
+    number_x_square_per_board.assign(num_board, num_x_square);
+    number_y_square_per_board.assign(num_board, num_y_square);
+  }
+  if (resolution_x_per_board.size() == 0) {
+    resolution_x_per_board.assign(num_board, res_x);
+    resolution_y_per_board.assign(num_board, res_y);
   }
 
   const std::vector<cv::Mat> charuco_boards_images =
-- 
2.43.0


From 5f701cc3bdd5516134cddc33f087796d387e529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 19/24] fix: refine camera groups which share an object
 together

The board poses of an object are shared by all groups. Refining one group
after the other let each one move the boards with no regard for the
observations of the groups refined before.
---
 McCalib/include/CameraGroup.hpp |  5 ++--
 McCalib/src/CameraGroup.cpp     | 44 ++++++++-------------------------
 McCalib/src/McCalib.cpp         | 34 +++++++++++++++++++++++--
 3 files changed, 45 insertions(+), 38 deletions(-)

diff --git a/McCalib/include/CameraGroup.hpp b/McCalib/include/CameraGroup.hpp
index bcee620..9ce3447 100644
--- a/McCalib/include/CameraGroup.hpp
+++ b/McCalib/include/CameraGroup.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "opencv2/core/core.hpp"
+#include <ceres/ceres.h>
 #include <iostream>
 #include <opencv2/aruco/charuco.hpp>
 #include <opencv2/opencv.hpp>
@@ -63,8 +64,8 @@ public:
   void computeObjPoseInCameraGroup();
   void refineCameraGroup(const int nb_iterations);
   void reproErrorCameraGroup();
-  void refineCameraGroupAndObjects(const int nb_iterations);
-  void refineCameraGroupAndObjectsAndIntrinsics(const int nb_iterations);
+  void addCameraGroupAndObjectsResiduals(ceres::Problem &problem);
+  void addCameraGroupAndObjectsAndIntrinsicsResiduals(ceres::Problem &problem);
 };
 
 } // namespace McCalib
\ No newline at end of file
diff --git a/McCalib/src/CameraGroup.cpp b/McCalib/src/CameraGroup.cpp
index 7f13229..1cfe1b2 100644
--- a/McCalib/src/CameraGroup.cpp
+++ b/McCalib/src/CameraGroup.cpp
@@ -358,13 +358,13 @@ void CameraGroup::reproErrorCameraGroup() {
 }
 
 /**
- * @brief Refine the objects pose, camera pose in the group and board poses
+ * @brief Add the residuals of the group to a problem which refines the objects
+ * pose, camera pose in the group and board poses
  *
- * @param nb_iterations number of iterations for non-linear refinement
+ * @param problem problem shared by all the groups, because the board poses are
  *
  */
-void CameraGroup::refineCameraGroupAndObjects(const int nb_iterations) {
-  ceres::Problem problem;
+void CameraGroup::addCameraGroupAndObjectsResiduals(ceres::Problem &problem) {
   LOG_INFO << "Number of frames for camera group optimization  :: "
            << frames_.size();
   // Iterate through frames
@@ -459,30 +459,18 @@ void CameraGroup::refineCameraGroupAndObjects(const int nb_iterations) {
       }
     }
   }
-  // Run the optimization
-  ceres::Solver::Options options;
-  options.linear_solver_type = ceres::SPARSE_SCHUR;
-  options.max_num_iterations = nb_iterations;
-  options.minimizer_progress_to_stdout = true;
-  ceres::Solver::Summary summary;
-  ceres::Solve(options, &problem, &summary);
-
-  // Display poses in the group
-  for (const auto &it : relative_camera_pose_) {
-    LOG_INFO << "Camera  " << it.first << "  :: " << getCameraPoseMat(it.first);
-  }
 }
 
 /**
- * @brief Refine the objects pose, camera pose in the group and board poses
- * and cameras intrinsic parameters
+ * @brief Add the residuals of the group to a problem which refines the objects
+ * pose, camera pose in the group and board poses and cameras intrinsic
+ * parameters
  *
- * @param nb_iterations number of iterations for non-linear refinement
+ * @param problem problem shared by all the groups, because the board poses are
  *
  */
-void CameraGroup::refineCameraGroupAndObjectsAndIntrinsics(
-    const int nb_iterations) {
-  ceres::Problem problem;
+void CameraGroup::addCameraGroupAndObjectsAndIntrinsicsResiduals(
+    ceres::Problem &problem) {
   LOG_INFO << "Number of frames for camera group optimization  :: "
            << frames_.size();
   // Iterate through frames
@@ -568,18 +556,6 @@ void CameraGroup::refineCameraGroupAndObjectsAndIntrinsics(
       }
     }
   }
-  // Run the optimization
-  ceres::Solver::Options options;
-  options.linear_solver_type = ceres::SPARSE_SCHUR;
-  options.max_num_iterations = nb_iterations;
-  options.minimizer_progress_to_stdout = true;
-  ceres::Solver::Summary summary;
-  ceres::Solve(options, &problem, &summary);
-
-  // Display poses in the group
-  for (const auto &it : relative_camera_pose_) {
-    LOG_INFO << "Camera  " << it.first << "  :: " << getCameraPoseMat(it.first);
-  }
 }
 
 } // namespace McCalib
\ No newline at end of file
diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 0b0a6ef..728cdd4 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -1872,8 +1872,23 @@ void Calibration::reproErrorAllCamGroup() {
  *
  */
 void Calibration::refineAllCameraGroupAndObjects() {
+  ceres::Problem problem;
   for (const auto &it : cam_group_)
-    it.second->refineCameraGroupAndObjects(nb_iterations_);
+    it.second->addCameraGroupAndObjectsResiduals(problem);
+
+  // Run the optimization
+  ceres::Solver::Options options;
+  options.linear_solver_type = ceres::SPARSE_SCHUR;
+  options.max_num_iterations = nb_iterations_;
+  options.minimizer_progress_to_stdout = true;
+  ceres::Solver::Summary summary;
+  ceres::Solve(options, &problem, &summary);
+
+  // Display poses in the groups
+  for (const auto &it : cam_group_)
+    for (const auto &it_cam : it.second->relative_camera_pose_)
+      LOG_INFO << "Camera  " << it_cam.first
+               << "  :: " << it.second->getCameraPoseMat(it_cam.first);
 
   // Update the 3D objects
   for (const auto &it : object_3d_)
@@ -2344,8 +2359,23 @@ void Calibration::saveReprojectionErrorToFile() {
  *
  */
 void Calibration::refineAllCameraGroupAndObjectsAndIntrinsic() {
+  ceres::Problem problem;
+  for (const auto &it : cam_group_)
+    it.second->addCameraGroupAndObjectsAndIntrinsicsResiduals(problem);
+
+  // Run the optimization
+  ceres::Solver::Options options;
+  options.linear_solver_type = ceres::SPARSE_SCHUR;
+  options.max_num_iterations = nb_iterations_;
+  options.minimizer_progress_to_stdout = true;
+  ceres::Solver::Summary summary;
+  ceres::Solve(options, &problem, &summary);
+
+  // Display poses in the groups
   for (const auto &it : cam_group_)
-    it.second->refineCameraGroupAndObjectsAndIntrinsics(nb_iterations_);
+    for (const auto &it_cam : it.second->relative_camera_pose_)
+      LOG_INFO << "Camera  " << it_cam.first
+               << "  :: " << it.second->getCameraPoseMat(it_cam.first);
 
   // Update the 3D objects
   for (const auto &it : object_3d_)
-- 
2.43.0


From ee72579ba3ed8956fa8b376c738ba3213d925493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 20/24] fix: create the output folder if its path ends with a
 separator

The results of the whole calibration were lost silently.
---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 728cdd4..2a8b670 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -97,7 +97,7 @@ Calibration::Calibration(const std::filesystem::path &config_path) {
            << "   Distortion mode : " << distortion_model;
 
   // check if the save dir exist and create it if it does not
-  if (!std::filesystem::exists(save_path_) && save_path_.has_filename()) {
+  if (!save_path_.empty() && !std::filesystem::exists(save_path_)) {
     std::filesystem::create_directories(save_path_);
   }
 
-- 
2.43.0


From 7a6c03a32b18d54d38d8bd80e8fac23e114824a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 21/24] fix: count the samples of the saddle fit from zero

---
 McCalib/include/point_refinement.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/include/point_refinement.h b/McCalib/include/point_refinement.h
index d932aae..6985cfb 100644
--- a/McCalib/include/point_refinement.h
+++ b/McCalib/include/point_refinement.h
@@ -205,7 +205,7 @@ void saddleSubpixelRefinement(const cv::Mat &input,
 
   cv::Mat smoothingKernel;
   cv::Mat mask;
-  int nnz;
+  int nnz = 0;
   initConeSmoothingKernel(window_half_size, smoothingKernel, mask, nnz);
 
   cv::Mat invAtAAt;
-- 
2.43.0


From 5c93a010cced41fb486f63c95a7d9ca07c568463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 22/24] fix: refine the corners after one whose refinement
 fails

---
 McCalib/src/McCalib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/McCalib.cpp b/McCalib/src/McCalib.cpp
index 2a8b670..0b177e5 100644
--- a/McCalib/src/McCalib.cpp
+++ b/McCalib/src/McCalib.cpp
@@ -328,7 +328,7 @@ void Calibration::detectBoardsInImageWithCamera(const std::string &frame_path,
                                  corner_ref_window_, corner_ref_max_iter_);
         for (std::size_t j = 0; j < charuco_corners[i].size(); j++) {
           if (std::isinf(refined[j].x) || std::isinf(refined[j].y)) {
-            break;
+            continue;
           }
           charuco_corners[i][j].x = refined[j].x;
           charuco_corners[i][j].y = refined[j].y;
-- 
2.43.0


From 7703f0c35f4794addeabf90cd80b60fb6e2951d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 23/24] fix: an edge from a new vertex to itself creates the
 vertex once

---
 McCalib/src/Graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/McCalib/src/Graph.cpp b/McCalib/src/Graph.cpp
index 14ca7b3..a9ff4ec 100755
--- a/McCalib/src/Graph.cpp
+++ b/McCalib/src/Graph.cpp
@@ -19,10 +19,10 @@ void Graph::addEdge(const int v1, const int v2, const double weight) {
   Vertex vertex1 = (idx_to_vertex_.find(v1) != idx_to_vertex_.end())
                        ? idx_to_vertex_[v1]
                        : boost::add_vertex(std::to_string(v1), graph_);
+  idx_to_vertex_[v1] = vertex1;
   Vertex vertex2 = (idx_to_vertex_.find(v2) != idx_to_vertex_.end())
                        ? idx_to_vertex_[v2]
                        : boost::add_vertex(std::to_string(v2), graph_);
-  idx_to_vertex_[v1] = vertex1;
   idx_to_vertex_[v2] = vertex2;
 
   boost::add_edge(vertex1, vertex2, EdgeWeightProperty(weight), graph_);
-- 
2.43.0


From 4c43f8683533824ebd454c70303a042bf5bdfdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:20 +0000
Subject: [PATCH 24/24] fix: draw the edges of the camera bodies between their
 corners

---
 python_utils/display_calib_cameras.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python_utils/display_calib_cameras.py b/python_utils/display_calib_cameras.py
index 132bfc7..9d4abdc 100755
--- a/python_utils/display_calib_cameras.py
+++ b/python_utils/display_calib_cameras.py
@@ -34,7 +34,7 @@ def plot_camera(
     ax.plot(
         [x4[0][0], x3[0][0]],
         [x4[1][0], x3[1][0]],
-        zs=[x4[2][0], x4[2][0]],
+        zs=[x4[2][0], x3[2][0]],
         color=(cam_color[0], cam_color[1], cam_color[2]),
         linewidth=cam_edge,
     )
@@ -156,7 +156,7 @@ def plot_camera(
     )
     ax.plot(
         [x8[0][0], x12[0][0]],
-        [x8[1][0], x8[1][0]],
+        [x8[1][0], x12[1][0]],
         zs=[x8[2][0], x12[2][0]],
         color=(cam_color[0], cam_color[1], cam_color[2]),
         linewidth=cam_edge,
-- 
2.43.0

