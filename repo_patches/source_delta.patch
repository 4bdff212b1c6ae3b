From 8123632ba4c4b795ac91f60696ec2cfe4031a620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 01/41] fix: interval complement with overlapping or nested
 inner intervals

---
 src/datastructure/Interval.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/datastructure/Interval.cpp b/src/datastructure/Interval.cpp
index 3e24fef..769b711 100644
--- a/src/datastructure/Interval.cpp
+++ b/src/datastructure/Interval.cpp
@@ -67,15 +67,13 @@ std::vector<hrm::Interval> hrm::Interval::complements(
         return outer;
     }
 
-    auto innerCopy = inner;
+    // Merge inner intervals that overlap or are nested (also sorts them)
+    const auto innerCopy = unions(inner);
     std::vector<Interval> res;
     std::vector<Interval> comp;
     std::vector<Interval> intBuff;
     std::vector<Interval> intsect;
 
-    sort(innerCopy.begin(), innerCopy.end(),
-         [](Interval a, Interval b) { return a.s() < b.s(); });
-
     // Compliment of the inner intervals
     comp.emplace_back(-std::numeric_limits<double>::max(), innerCopy.at(0).s());
     for (size_t i = 0; i < innerCopy.size() - 1; ++i) {
-- 
2.43.0


From 03e67385aa9db6dc813b7795f5194ee0bff32342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 02/41] fix: normal direction of non-circular superellipses in
 2D Minkowski sums

---
 src/geometry/SuperEllipse.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geometry/SuperEllipse.cpp b/src/geometry/SuperEllipse.cpp
index 38cd234..c80caa9 100644
--- a/src/geometry/SuperEllipse.cpp
+++ b/src/geometry/SuperEllipse.cpp
@@ -88,9 +88,10 @@ hrm::BoundaryPoints hrm::SuperEllipse::getMinkSum2D(const SuperEllipse &shapeB,
     for (auto i = 0; i < int(num_); i++) {
         the(0, i) = 2 * i * PI / (static_cast<double>(num_) - 1);
         gradPhi(0, i) =
-            2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, false);
+            2 / (a1 * eps1) *
+            exponentialFunction(the(0, i), 2 - eps1, false);
         gradPhi(1, i) =
-            2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, true);
+            2 / (b1 * eps1) * exponentialFunction(the(0, i), 2 - eps1, true);
     }
     xMinkowski =
         getOriginShape() +
-- 
2.43.0


From 1f92222b3d75e0e4244b92a199d688eecd6c4374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 03/41] fix: sign of the orientation of the covering ellipse

---
 src/geometry/TightFitEllipsoid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/TightFitEllipsoid.cpp b/src/geometry/TightFitEllipsoid.cpp
index 9f1fe89..ec2e87b 100644
--- a/src/geometry/TightFitEllipsoid.cpp
+++ b/src/geometry/TightFitEllipsoid.cpp
@@ -34,7 +34,7 @@ hrm::SuperEllipse hrm::getMVCE2D(const std::vector<double>& a,
     const Eigen::Matrix2d C =
         T * svd.matrixU() * diagC * svd.matrixU().transpose() * T;
     svd.compute(C);
-    const double angleC = acos(svd.matrixU()(0, 0));
+    const double angleC = atan2(svd.matrixU()(1, 0), svd.matrixU()(0, 0));
     const Eigen::Array2d c = svd.singularValues().array().pow(-0.5);
 
     return SuperEllipse({c(0), c(1)}, 1, {0, 0}, angleC, num);
-- 
2.43.0


From 4a0e3c7df94bf5ba130b04c9985bf9fbed9fa92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 04/41] fix: covering ellipsoid orientation when its axes form
 an improper rotation

---
 src/geometry/TightFitEllipsoid.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/geometry/TightFitEllipsoid.cpp b/src/geometry/TightFitEllipsoid.cpp
index ec2e87b..5c1b72e 100644
--- a/src/geometry/TightFitEllipsoid.cpp
+++ b/src/geometry/TightFitEllipsoid.cpp
@@ -74,7 +74,12 @@ hrm::SuperQuadrics hrm::getMVCE3D(const std::vector<double>& a,
     const Eigen::Matrix3d C =
         T * svd.matrixU() * diagC * svd.matrixU().transpose() * T;
     svd.compute(C);
-    const Eigen::Quaterniond quatC(svd.matrixU());
+    // Principal axes as a proper rotation
+    Eigen::Matrix3d Rc = svd.matrixU();
+    if (Rc.determinant() < 0) {
+        Rc.col(2) = -Rc.col(2);
+    }
+    const Eigen::Quaterniond quatC(Rc);
     const Eigen::Array3d c = svd.singularValues().array().pow(-0.5);
 
     return SuperQuadrics({c(0), c(1), c(2)}, {1, 1}, {0, 0, 0}, quatC, num);
-- 
2.43.0


From c363b0963f5ee5fe5b093d7a4474975af0fe7b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 05/41] fix: compute C-space boundaries of each C-slice at its
 own robot orientation

---
 include/hrm/datastructure/FreeSpace.h | 7 +++++++
 src/planners/HRM2D.cpp                | 6 +++++-
 src/planners/HRM3D.cpp                | 3 ++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/hrm/datastructure/FreeSpace.h b/include/hrm/datastructure/FreeSpace.h
index 66a5509..b110d4d 100644
--- a/include/hrm/datastructure/FreeSpace.h
+++ b/include/hrm/datastructure/FreeSpace.h
@@ -65,6 +65,13 @@ class FreeSpaceComputator {
      * \param robot A new robot */
     void setRobot(const RobotType& robot) { robot_ = robot; }
 
+    /** \brief Transform the robot used for computing C-space boundaries
+     * \param g The transformation */
+    template <typename Transformation>
+    void setRobotTransform(const Transformation& g) {
+        robot_.robotTF(g);
+    }
+
     /** \brief Get C-space obstacles boundary
      * \return BoundaryInfo */
     const BoundaryInfo& getCSpaceBoundary() const { return cSpaceBoundary_; }
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index f1b2f23..b9633a3 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -23,7 +23,11 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
 
     // Generate new C-slice
     if (!isRefine_) {
-        // Generate Minkowski operation boundaries
+        // Generate Minkowski operation boundaries at the current heading
+        SE2Transform g = SE2Transform::Identity();
+        g.topLeftCorner(2, 2) =
+            Eigen::Rotation2Dd(headings_.at(sliceIdx)).toRotationMatrix();
+        freeSpacePtr_->setRobotTransform(g);
         freeSpacePtr_->computeCSpaceBoundary();
         sliceBound_ = freeSpacePtr_->getCSpaceBoundary();
         sliceBoundAll_.push_back(sliceBound_);
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index d5295b1..0a0b414 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -32,7 +32,8 @@ void hrm::planners::HRM3D::constructOneSlice(const Index sliceIdx) {
 
     // Add new C-slice
     if (!isRefine_) {
-        // Generate Minkowski operation boundaries
+        // Generate Minkowski operation boundaries for the current robot shape
+        freeSpacePtr_->setRobot(robot_);
         freeSpacePtr_->computeCSpaceBoundary();
         sliceBound_ = freeSpacePtr_->getCSpaceBoundary();
         sliceBoundAll_.push_back(sliceBound_);
-- 
2.43.0


From 938755c8add8c938a5ed409f9591794bbd3c6697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 06/41] fix: set up the free space for the refined number of
 sweep lines

---
 include/hrm/datastructure/FreeSpace-inl.h | 8 ++++----
 src/planners/HRM2D.cpp                    | 4 ++++
 src/planners/HRM3D.cpp                    | 4 ++++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/hrm/datastructure/FreeSpace-inl.h b/include/hrm/datastructure/FreeSpace-inl.h
index 819790a..26b675b 100644
--- a/include/hrm/datastructure/FreeSpace-inl.h
+++ b/include/hrm/datastructure/FreeSpace-inl.h
@@ -28,13 +28,13 @@ void FreeSpaceComputator<RobotType, ObjectType>::setup(
         (1 + robot_.getNumLinks()) * obstacle_.size());
 
     // Initialize sweep lines
-    intersect_.arenaLow.resize(numLine,
+    intersect_.arenaLow.assign(numLine,
                                std::vector<Coordinate>(numArena, lowBound));
-    intersect_.arenaUpp.resize(numLine,
+    intersect_.arenaUpp.assign(numLine,
                                std::vector<Coordinate>(numArena, upBound));
-    intersect_.obstacleLow.resize(numLine,
+    intersect_.obstacleLow.assign(numLine,
                                   std::vector<Coordinate>(numObstacle, NAN));
-    intersect_.obstacleUpp.resize(numLine,
+    intersect_.obstacleUpp.assign(numLine,
                                   std::vector<Coordinate>(numObstacle, NAN));
 }
 
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index b9633a3..b6b76e0 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -55,6 +55,10 @@ void hrm::planners::HRM2D::sampleOrientations() {
 }
 
 void hrm::planners::HRM2D::sweepLineProcess() {
+    // Setup for the current number of sweep lines
+    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
+                         param_.boundaryLimits[1]);
+
     // Compute vector of y-coordinates
     std::vector<Coordinate> ty(param_.numLineY);
     const Coordinate dy =
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 0a0b414..0d9f2dc 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -62,6 +62,10 @@ void hrm::planners::HRM3D::sampleOrientations() {
 }
 
 void hrm::planners::HRM3D::sweepLineProcess() {
+    // Setup for the current number of sweep lines
+    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[4],
+                         param_.boundaryLimits[5]);
+
     // x- and y-coordinates of sweep lines
     std::vector<Coordinate> ty(param_.numLineY);
     const double dx = (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
-- 
2.43.0


From 2e20d1baa9a980844f140bbc47c85ffcb3060626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 07/41] fix: use the boundary of the requested C-slice when
 refining and querying

---
 include/hrm/datastructure/FreeSpace.h | 6 ++++++
 include/hrm/planners/HRM2D.h          | 1 +
 include/hrm/planners/HRM3D.h          | 1 +
 src/planners/HRM2D.cpp                | 1 +
 src/planners/HRM3D.cpp                | 2 ++
 5 files changed, 11 insertions(+)

diff --git a/include/hrm/datastructure/FreeSpace.h b/include/hrm/datastructure/FreeSpace.h
index b110d4d..9b9b1de 100644
--- a/include/hrm/datastructure/FreeSpace.h
+++ b/include/hrm/datastructure/FreeSpace.h
@@ -76,6 +76,12 @@ class FreeSpaceComputator {
      * \return BoundaryInfo */
     const BoundaryInfo& getCSpaceBoundary() const { return cSpaceBoundary_; }
 
+    /** \brief Set C-space obstacles boundary that has been computed before
+     * \param bound The boundary */
+    void setCSpaceBoundary(const BoundaryInfo& bound) {
+        cSpaceBoundary_ = bound;
+    }
+
     /** \brief Get intervals for line-obstacle/arena intersections
      * \return IntersectionInterval */
     const IntersectionInterval& getIntersectionInterval() const {
diff --git a/include/hrm/planners/HRM2D.h b/include/hrm/planners/HRM2D.h
index 331837d..a4e1b9a 100644
--- a/include/hrm/planners/HRM2D.h
+++ b/include/hrm/planners/HRM2D.h
@@ -28,6 +28,7 @@ class HRM2D : public HighwayRoadMap<MultiBodyTree2D, SuperEllipse> {
      * \return Collision-free line segment as FreeSegment2D type */
     const FreeSegment2D& getFreeSegmentOneSlice(const BoundaryInfo& bd) {
         sliceBound_ = bd;
+        freeSpacePtr_->setCSpaceBoundary(sliceBound_);
         sweepLineProcess();
         return freeSegOneSlice_;
     }
diff --git a/include/hrm/planners/HRM3D.h b/include/hrm/planners/HRM3D.h
index fca0225..641417c 100644
--- a/include/hrm/planners/HRM3D.h
+++ b/include/hrm/planners/HRM3D.h
@@ -35,6 +35,7 @@ class HRM3D : public HighwayRoadMap<MultiBodyTree3D, SuperQuadrics> {
      * \return Collision-free line segment as FreeSegment3D type */
     const FreeSegment3D& getFreeSegmentOneSlice(const BoundaryInfo* bd) {
         sliceBound_ = *bd;
+        freeSpacePtr_->setCSpaceBoundary(sliceBound_);
         freeSpacePtr_->computeCSpaceBoundaryMesh(sliceBound_);
         sliceBoundMesh_ = freeSpacePtr_->getCSpaceBoundaryMesh();
         sweepLineProcess();
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index b6b76e0..0d6c0b5 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -33,6 +33,7 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
         sliceBoundAll_.push_back(sliceBound_);
     } else {
         sliceBound_ = sliceBoundAll_.at(sliceIdx);
+        freeSpacePtr_->setCSpaceBoundary(sliceBound_);
     }
 
     // Sweep-line process to generate collision free line segments
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 0d9f2dc..4bfd41d 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -45,6 +45,8 @@ void hrm::planners::HRM3D::constructOneSlice(const Index sliceIdx) {
     } else {
         sliceBound_ = sliceBoundAll_.at(sliceIdx);
         sliceBoundMesh_ = sliceBoundMeshAll_.at(sliceIdx);
+        freeSpacePtr_->setCSpaceBoundary(sliceBound_);
+        freeSpacePtr_->computeCSpaceBoundaryMesh(sliceBound_);
     }
 
     // Sweep-line process to generate collision free line segments
-- 
2.43.0


From a06f1a492999bbe8c83846dbb3305c4197ae979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 08/41] fix: cost of a solution is the total weight of its
 edges

---
 include/hrm/planners/HighwayRoadMap-inl.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/hrm/planners/HighwayRoadMap-inl.h b/include/hrm/planners/HighwayRoadMap-inl.h
index a14b876..c1a104e 100644
--- a/include/hrm/planners/HighwayRoadMap-inl.h
+++ b/include/hrm/planners/HighwayRoadMap-inl.h
@@ -148,15 +148,12 @@ void HighwayRoadMap<RobotType, ObjectType>::search() {
             } catch (AStarFoundGoal found) {
                 // Record path and cost
                 num = 0;
-                res_.solutionPath.cost = 0.0;
+                res_.solutionPath.cost = d[idxG];
                 res_.solutionPath.PathId.push_back(int(idxG));
                 while (res_.solutionPath.PathId[num] != int(idxS) &&
                        num <= num_vtx) {
                     res_.solutionPath.PathId.push_back(
                         int(p[size_t(res_.solutionPath.PathId[num])]));
-                    res_.solutionPath.cost +=
-                        res_.graphStructure
-                            .weight[size_t(res_.solutionPath.PathId[num])];
                     num++;
                 }
                 std::reverse(std::begin(res_.solutionPath.PathId),
-- 
2.43.0


From 3cf371e1cfa8f3dd6d277caf501e4ee71d529546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 09/41] fix: interpolation with no step returns the two end
 poses

---
 src/util/InterpolateSE3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/InterpolateSE3.cpp b/src/util/InterpolateSE3.cpp
index 8b9410d..f9ab158 100644
--- a/src/util/InterpolateSE3.cpp
+++ b/src/util/InterpolateSE3.cpp
@@ -34,7 +34,7 @@ std::vector<std::vector<hrm::Coordinate>> hrm::interpolateCompoundSE3Rn(
     std::vector<std::vector<Coordinate>> vInterp;
 
     if (numStep == 0) {
-        vInterp = std::vector<std::vector<Coordinate>>({vStart, vEnd});
+        return std::vector<std::vector<Coordinate>>({vStart, vEnd});
     }
 
     if (vStart.size() == 7) {
-- 
2.43.0


From 0dbe9d4e5188b149323dd9ddd5c11112133f88e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 10/41] fix: interpolated solution path in 3D, also for a path
 of zero length

---
 include/hrm/planners/HRM3D.h |  2 +-
 src/planners/HRM3D.cpp       | 22 +++++++++++++++-------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/hrm/planners/HRM3D.h b/include/hrm/planners/HRM3D.h
index 641417c..2bec6d1 100644
--- a/include/hrm/planners/HRM3D.h
+++ b/include/hrm/planners/HRM3D.h
@@ -28,7 +28,7 @@ class HRM3D : public HighwayRoadMap<MultiBodyTree3D, SuperQuadrics> {
 
     /** \brief Get the resulting solved path and the interpolated one */
     std::vector<std::vector<Coordinate>> getInterpolatedSolutionPath(
-        const Index num);
+        const unsigned int num) override;
 
     /** \brief Get free line segment at one specific C-slice
      * \param bd Pointer to Minkowski boundaries
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 4bfd41d..13d39fe 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -277,21 +277,29 @@ void hrm::planners::HRM3D::connectExistSlice(const Index sliceId) {
 }
 
 std::vector<std::vector<hrm::Coordinate>>
-hrm::planners::HRM3D::getInterpolatedSolutionPath(const Index num) {
+hrm::planners::HRM3D::getInterpolatedSolutionPath(const unsigned int num) {
     std::vector<std::vector<Coordinate>> pathInterp;
 
-    // Compute distance per step
+    // Compute distance per step, relative to the length of the whole path
+    double pathLength = 0.0;
+    for (size_t i = 1; i < res_.solutionPath.solvedPath.size(); ++i) {
+        pathLength += vectorEuclidean(res_.solutionPath.solvedPath.at(i - 1),
+                                      res_.solutionPath.solvedPath.at(i));
+    }
     const double distanceStep =
-        res_.solutionPath.cost /
+        pathLength /
         (static_cast<double>(num) *
          (static_cast<double>(res_.solutionPath.solvedPath.size()) - 1.0));
 
     // Iteratively store interpolated poses along the solved path
     for (size_t i = 0; i < res_.solutionPath.solvedPath.size() - 1; ++i) {
-        const auto numStep = static_cast<int>(
-            vectorEuclidean(res_.solutionPath.solvedPath.at(i),
-                            res_.solutionPath.solvedPath.at(i + 1)) /
-            distanceStep);
+        const auto numStep =
+            distanceStep > 0.0
+                ? static_cast<int>(
+                      vectorEuclidean(res_.solutionPath.solvedPath.at(i),
+                                      res_.solutionPath.solvedPath.at(i + 1)) /
+                      distanceStep)
+                : 0;
 
         std::vector<std::vector<Coordinate>> stepInterp =
             interpolateCompoundSE3Rn(res_.solutionPath.solvedPath.at(i),
-- 
2.43.0


From c115152e28dbdb52c15eaf94846a66e2731a78d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 11/41] fix: connection of exactly two 2D C-slices

---
 src/planners/HRM2D.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 0d6c0b5..5e2d87f 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -121,7 +121,11 @@ void hrm::planners::HRM2D::connectMultiSlice() {
         endIdCur = vertexIdx_.at(i).slice;
 
         // Find the nearest C-slice
-        if (i == param_.numSlice - 1 && param_.numSlice != 2) {
+        if (i == param_.numSlice - 1) {
+            // Two C-slices are already connected with each other
+            if (param_.numSlice == 2) {
+                break;
+            }
             j = 0;
         } else {
             j = i + 1;
-- 
2.43.0


From 9103c16deee9511bfe43e15f52f53d2e50b5a8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 12/41] fix: single heading, sweep line or interpolation point
 gives finite values

---
 src/planners/HRM2D.cpp | 17 ++++++++++++-----
 src/planners/HRM3D.cpp | 14 ++++++++++----
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 5e2d87f..e866018 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -49,7 +49,10 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
 /** \brief Setup rotation angles: angle range [-PI, PI]. If the heading
  * exists, no addition and record the index */
 void hrm::planners::HRM2D::sampleOrientations() {
-    const double dr = 2 * PI / (static_cast<double>(param_.numSlice) - 1);
+    const double dr =
+        param_.numSlice > 1
+            ? 2 * PI / (static_cast<double>(param_.numSlice) - 1)
+            : 0.0;
     for (size_t i = 0; i < param_.numSlice; ++i) {
         headings_.push_back(-PI + dr * static_cast<double>(i));
     }
@@ -63,8 +66,10 @@ void hrm::planners::HRM2D::sweepLineProcess() {
     // Compute vector of y-coordinates
     std::vector<Coordinate> ty(param_.numLineY);
     const Coordinate dy =
-        (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /
-        (static_cast<double>(param_.numLineY) - 1);
+        param_.numLineY > 1
+            ? (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /
+                  (static_cast<double>(param_.numLineY) - 1)
+            : 0.0;
     for (size_t i = 0; i < param_.numLineY; ++i) {
         ty[i] = param_.boundaryLimits[2] + static_cast<double>(i) * dy;
     }
@@ -247,8 +252,10 @@ bool hrm::planners::HRM2D::isSameSliceTransitionFree(
 // Connect vertices among different slices
 bool hrm::planners::HRM2D::isMultiSliceTransitionFree(
     const std::vector<Coordinate>& v1, const std::vector<Coordinate>& v2) {
-    const double dt = 1.0 / (static_cast<double>(param_.numPoint) - 1);
-    for (size_t i = 0; i < param_.numPoint; ++i) {
+    // At least both ends of the motion are checked
+    const size_t numStep = std::max<size_t>(param_.numPoint, 2);
+    const double dt = 1.0 / (static_cast<double>(numStep) - 1);
+    for (size_t i = 0; i < numStep; ++i) {
         // Interpolate robot motion linearly from v1 to v2
         std::vector<Coordinate> vStep;
         for (size_t j = 0; j < v1.size(); ++j) {
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 13d39fe..039c163 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -70,10 +70,16 @@ void hrm::planners::HRM3D::sweepLineProcess() {
 
     // x- and y-coordinates of sweep lines
     std::vector<Coordinate> ty(param_.numLineY);
-    const double dx = (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
-                      static_cast<double>(param_.numLineX - 1);
-    const double dy = (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /
-                      static_cast<double>(param_.numLineY - 1);
+    const double dx =
+        param_.numLineX > 1
+            ? (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
+                  static_cast<double>(param_.numLineX - 1)
+            : 0.0;
+    const double dy =
+        param_.numLineY > 1
+            ? (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /
+                  static_cast<double>(param_.numLineY - 1)
+            : 0.0;
 
     for (size_t i = 0; i < param_.numLineY; ++i) {
         ty[i] = param_.boundaryLimits[2] + static_cast<double>(i) * dy;
-- 
2.43.0


From 415ffa4884f22f37e927ebc703ffb99382392afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 13/41] fix: first 3D C-slice is not connected with itself

---
 src/planners/HRM3D.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 039c163..0cf0b3b 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -173,11 +173,11 @@ void hrm::planners::HRM3D::connectMultiSlice() {
         return;
     }
 
-    for (size_t i = 0; i < vertexIdx_.size(); ++i) {
-        // Find the nearest C-slices
+    for (size_t i = 1; i < vertexIdx_.size(); ++i) {
+        // Find the nearest C-slices among the previous ones
         double minDist = INFINITY;
         int minIdx = 0;
-        for (size_t j = 0; j != i && j < param_.numSlice; ++j) {
+        for (size_t j = 0; j < i; ++j) {
             double dist = q_.at(i).angularDistance(q_.at(j));
             if (dist < minDist) {
                 minDist = dist;
-- 
2.43.0


From 389ff46ba4418f6d31312cd02421179747200613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 14/41] fix: tightly-fitted ellipse with a single interpolation
 step

---
 src/geometry/TightFitEllipsoid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/TightFitEllipsoid.cpp b/src/geometry/TightFitEllipsoid.cpp
index 5c1b72e..dee99d1 100644
--- a/src/geometry/TightFitEllipsoid.cpp
+++ b/src/geometry/TightFitEllipsoid.cpp
@@ -89,7 +89,8 @@ hrm::SuperEllipse hrm::getTFE2D(const std::vector<double>& a,
                                 const double thetaA, const double thetaB,
                                 const Index numStep, const Index num) {
     SuperEllipse enclosedEllipse = getMVCE2D(a, a, thetaA, thetaB, num);
-    const double dt = 1.0 / (static_cast<double>(numStep) - 1);
+    const double dt =
+        numStep > 1 ? 1.0 / (static_cast<double>(numStep) - 1) : 0.0;
     for (auto i = 0; i < numStep; ++i) {
         auto currIdx = static_cast<double>(i);
         double thetaStep = (1 - currIdx * dt) * thetaA + currIdx * dt * thetaB;
-- 
2.43.0


From 63db17496516d809ce4ea452be7796f3dc20e011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 15/41] fix: attachment of start and goal to the nearest vertex
 of each C-slice

---
 src/planners/HRM2D.cpp | 17 ++++++++++++-----
 src/planners/HRM3D.cpp | 12 ++++++++++--
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index e866018..efe85d9 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -304,6 +304,11 @@ bool hrm::planners::HRM2D::isPtInCFree(const Index bdIdx,
 std::vector<hrm::planners::Vertex>
 hrm::planners::HRM2D::getNearestNeighborsOnGraph(
     const std::vector<Coordinate>& vertex, const Index k, const double radius) {
+    // No vertex to attach to
+    if (res_.graphStructure.vertex.empty()) {
+        return {};
+    }
+
     // Find the closest roadmap vertex
     double minEuclideanDist = INFINITY;
     double minAngleDist = INFINITY;
@@ -338,8 +343,8 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
     // line gaps) at each C-slice
     for (double angCur : angList) {
         Vertex idxSlice = 0;
-        minEuclideanDist =
-            vectorEuclidean(vertex, res_.graphStructure.vertex[0]);
+        bool isFound = false;
+        minEuclideanDist = INFINITY;
         for (size_t i = 0; i < res_.graphStructure.vertex.size(); ++i) {
             euclideanDist =
                 vectorEuclidean(vertex, res_.graphStructure.vertex[i]);
@@ -348,12 +353,14 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
                     EPSILON) {
                 minEuclideanDist = euclideanDist;
                 idxSlice = i;
+                isFound = true;
             }
         }
 
-        if (std::abs(vertex[1] - res_.graphStructure.vertex[idxSlice][1]) <
-            radius * (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
-                static_cast<double>(param_.numLineY)) {
+        if (isFound &&
+            std::abs(vertex[1] - res_.graphStructure.vertex[idxSlice][1]) <
+                radius * (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /
+                    static_cast<double>(param_.numLineY)) {
             idx.push_back(idxSlice);
         }
     }
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 0cf0b3b..dcedb1f 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -470,8 +470,13 @@ hrm::planners::HRM3D::getNearestNeighborsOnGraph(
     double euclideanDist;
     std::vector<Vertex> idx;
 
+    // No vertex to attach to
+    if (res_.graphStructure.vertex.empty()) {
+        return idx;
+    }
+
     Eigen::Quaterniond queryQuat(vertex[3], vertex[4], vertex[5], vertex[6]);
-    Eigen::Quaterniond minQuat;
+    Eigen::Quaterniond minQuat = q_[0];
 
     // Find the closest C-slice
     minQuatDist = queryQuat.angularDistance(q_[0]);
@@ -499,6 +504,7 @@ hrm::planners::HRM3D::getNearestNeighborsOnGraph(
     // gaps) at each C-slice
     for (const auto& quatCur : quatList) {
         Vertex idxSlice = 0;
+        bool isFound = false;
         minEuclideanDist = INFINITY;
         for (size_t i = 0; i < res_.graphStructure.vertex.size(); ++i) {
             euclideanDist =
@@ -512,10 +518,12 @@ hrm::planners::HRM3D::getNearestNeighborsOnGraph(
                     res_.graphStructure.vertex[i][6])) < 1e-6) {
                 minEuclideanDist = euclideanDist;
                 idxSlice = i;
+                isFound = true;
             }
         }
 
-        if (std::abs(vertex[0] - res_.graphStructure.vertex[idxSlice][0]) <
+        if (isFound &&
+            std::abs(vertex[0] - res_.graphStructure.vertex[idxSlice][0]) <
                 radius * (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
                     static_cast<double>(param_.numLineX) &&
             std::abs(vertex[1] - res_.graphStructure.vertex[idxSlice][1]) <
-- 
2.43.0


From 00c6682dc15bbd67bf594fb977f88032c69ef52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 16/41] fix: free segments end at the arena boundary and at the
 bounds of the sweep line

---
 src/datastructure/FreeSpace2D.cpp | 9 +++++----
 src/datastructure/FreeSpace3D.cpp | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/datastructure/FreeSpace2D.cpp b/src/datastructure/FreeSpace2D.cpp
index 0a5e643..686b67f 100644
--- a/src/datastructure/FreeSpace2D.cpp
+++ b/src/datastructure/FreeSpace2D.cpp
@@ -19,13 +19,14 @@ void hrm::FreeSpace2D::computeIntersectionInterval(
             const auto intersectPointArena = intersectHorizontalLinePolygon2D(
                 tLine.at(0).at(i), cSpaceBoundary_.arena.at(j));
             if (intersectPointArena.empty()) {
-                intersect_.arenaLow.at(i).at(j) = lowBound_;
-                intersect_.arenaUpp.at(i).at(j) = upBound_;
+                // No free part: sweep line does not pass through the arena
+                intersect_.arenaLow.at(i).at(j) = INFINITY;
+                intersect_.arenaUpp.at(i).at(j) = -INFINITY;
             } else {
-                intersect_.arenaLow.at(i).at(j) = std::fmin(
+                intersect_.arenaLow.at(i).at(j) = std::fmax(
                     lowBound_,
                     std::fmin(intersectPointArena[0], intersectPointArena[1]));
-                intersect_.arenaUpp.at(i).at(j) = std::fmax(
+                intersect_.arenaUpp.at(i).at(j) = std::fmin(
                     upBound_,
                     std::fmax(intersectPointArena[0], intersectPointArena[1]));
             }
diff --git a/src/datastructure/FreeSpace3D.cpp b/src/datastructure/FreeSpace3D.cpp
index 7d6e8e9..5ad4963 100644
--- a/src/datastructure/FreeSpace3D.cpp
+++ b/src/datastructure/FreeSpace3D.cpp
@@ -38,14 +38,15 @@ void hrm::FreeSpace3D::computeIntersectionInterval(
                 lineZ, cSpaceBoundaryMesh_.arena.at(j));
 
             if (intersectPointArena.empty()) {
-                intersect_.arenaLow.at(i).at(j) = lowBound_;
-                intersect_.arenaUpp.at(i).at(j) = upBound_;
+                // No free part: sweep line does not pass through the arena
+                intersect_.arenaLow.at(i).at(j) = INFINITY;
+                intersect_.arenaUpp.at(i).at(j) = -INFINITY;
             } else {
                 intersect_.arenaLow.at(i).at(j) =
-                    std::fmin(lowBound_, std::fmin(intersectPointArena[0](2),
+                    std::fmax(lowBound_, std::fmin(intersectPointArena[0](2),
                                                    intersectPointArena[1](2)));
                 intersect_.arenaUpp.at(i).at(j) =
-                    std::fmax(upBound_, std::fmax(intersectPointArena[0](2),
+                    std::fmin(upBound_, std::fmax(intersectPointArena[0](2),
                                                   intersectPointArena[1](2)));
             }
         }
-- 
2.43.0


From db5f47d3164e9d8c8722a5a7601d76fb4cc49330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 17/41] fix: line-mesh intersections span the mesh when a line
 hits shared edges or vertices

---
 src/geometry/LineIntersection.cpp | 32 +++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/geometry/LineIntersection.cpp b/src/geometry/LineIntersection.cpp
index 0af8445..2300c86 100644
--- a/src/geometry/LineIntersection.cpp
+++ b/src/geometry/LineIntersection.cpp
@@ -2,8 +2,28 @@
 
 #include "hrm/geometry/LineIntersection.h"
 
+#include <algorithm>
 #include <iostream>
 
+/** \brief Keep the two extreme intersection points along the line. Lines that
+ * pass through shared edges or vertices hit the same surface point repeatedly
+ */
+static std::vector<hrm::Point3D> getExtremePoints(
+    const hrm::Line3D& line, const std::vector<hrm::Point3D>& points) {
+    if (points.empty()) {
+        return points;
+    }
+
+    const Eigen::Vector3d direction = line.tail(3);
+    const auto extremes = std::minmax_element(
+        points.begin(), points.end(),
+        [&direction](const hrm::Point3D& p1, const hrm::Point3D& p2) {
+            return p1.dot(direction) < p2.dot(direction);
+        });
+
+    return {*extremes.first, *extremes.second};
+}
+
 std::vector<Eigen::Vector3d> hrm::intersectLineMesh3D(const Line3D& line,
                                                       const MeshMatrix& shape) {
     std::vector<Point3D> points;
@@ -44,13 +64,9 @@ std::vector<Eigen::Vector3d> hrm::intersectLineMesh3D(const Line3D& line,
         if (hasIntersect) {
             points.push_back(pt);
         }
-
-        if (points.size() == 2) {
-            break;
-        }
     }
 
-    return points;
+    return getExtremePoints(line, points);
 }
 
 std::vector<Eigen::Vector3d> hrm::intersectVerticalLineMesh3D(
@@ -114,13 +130,9 @@ std::vector<Eigen::Vector3d> hrm::intersectVerticalLineMesh3D(
         if (hasIntersect) {
             points.push_back(pt);
         }
-
-        if (points.size() == 2) {
-            break;
-        }
     }
 
-    return points;
+    return getExtremePoints(line, points);
 }
 
 bool hrm::intersectLineTriangle3D(const Line3D& line, const Eigen::Vector3d& t0,
-- 
2.43.0


From 88188e9c1d842ef5d72d7ec77bca2acd07d6b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 18/41] fix: horizontal line through vertices or along edges of
 a polygon

---
 src/geometry/LineIntersection.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/geometry/LineIntersection.cpp b/src/geometry/LineIntersection.cpp
index 2300c86..d2eaeda 100644
--- a/src/geometry/LineIntersection.cpp
+++ b/src/geometry/LineIntersection.cpp
@@ -249,6 +249,13 @@ std::vector<double> hrm::intersectHorizontalLinePolygon2D(
 
         // compute line-line segment intersection
         if (ty >= std::fmin(y1, y2) && ty <= std::fmax(y1, y2)) {
+            // edge along the line
+            if (y1 == y2) {
+                points.push_back(x1);
+                points.push_back(x2);
+                continue;
+            }
+
             double t = (ty - y2) / (y1 - y2);
             if (t >= 0.0 && t <= 1.0) {
                 points.push_back(t * x1 + (1.0 - t) * x2);
@@ -256,5 +263,11 @@ std::vector<double> hrm::intersectHorizontalLinePolygon2D(
         }
     }
 
+    // keep the two extreme points, lines through vertices hit several edges
+    if (!points.empty()) {
+        const auto extremes = std::minmax_element(points.begin(), points.end());
+        points = {*extremes.first, *extremes.second};
+    }
+
     return points;
 }
-- 
2.43.0


From 8db53d1f2c78ea3c42a1561ad934ce3c5e7ca473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 19/41] fix: segment that crosses a polygon at a vertex

---
 src/geometry/LineIntersection.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/geometry/LineIntersection.cpp b/src/geometry/LineIntersection.cpp
index d2eaeda..b5f1d59 100644
--- a/src/geometry/LineIntersection.cpp
+++ b/src/geometry/LineIntersection.cpp
@@ -214,9 +214,18 @@ bool hrm::isIntersectSegPolygon2D(
         b(0) = x1 - px1;
         b(1) = y1 - py1;
 
-        Eigen::Vector2d sol = A.colPivHouseholderQr().solve(b);
+        // parallel or degenerate edge, its ends are checked by adjacent edges
+        const double det = A.determinant();
+        if (std::fabs(det) <= 1e-14 * A.col(0).norm() * A.col(1).norm()) {
+            continue;
+        }
+        const Eigen::Vector2d sol((b(0) * A(1, 1) - A(0, 1) * b(1)) / det,
+                                  (A(0, 0) * b(1) - b(0) * A(1, 0)) / det);
 
-        if ((sol(0) > 0 && sol(0) < 1) && (sol(1) > 0 && sol(1) < 1)) {
+        // edges include their ends, so that no gap is left at the vertices
+        const double tol = 1e-12;
+        if ((sol(0) > 0 && sol(0) < 1) &&
+            (sol(1) > -tol && sol(1) < 1 + tol)) {
             return true;
         }
     }
-- 
2.43.0


From 5396f5273274ee253144a12e3702f32de461c15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 20/41] fix: sort the enhanced segments of every sweep line,
 the last one included

---
 include/hrm/datastructure/FreeSpace-inl.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/hrm/datastructure/FreeSpace-inl.h b/include/hrm/datastructure/FreeSpace-inl.h
index 26b675b..f7b8d99 100644
--- a/include/hrm/datastructure/FreeSpace-inl.h
+++ b/include/hrm/datastructure/FreeSpace-inl.h
@@ -130,6 +130,10 @@ FreeSpaceComputator<RobotType, ObjectType>::computeSweepLineFreeSegment(
 
 template <typename RobotType, typename ObjectType>
 void FreeSpaceComputator<RobotType, ObjectType>::enhanceFreeSegment() {
+    if (segment_.ty.empty()) {
+        return;
+    }
+
     FreeSegment2D enhanced = segment_;
 
     // Add new vertices within on sweep line
@@ -162,6 +166,10 @@ void FreeSpaceComputator<RobotType, ObjectType>::enhanceFreeSegment() {
             }
         }
 
+    }
+
+    // Sort once all the sweep lines are enhanced, the last one included
+    for (size_t i = 0; i < segment_.ty.size(); ++i) {
         sort(enhanced.xL[i].begin(), enhanced.xL[i].end(),
              [](double a, double b) { return a < b; });
         sort(enhanced.xU[i].begin(), enhanced.xU[i].end(),
-- 
2.43.0


From 9423b6fe5a62a9623f2797ed8c1078a31828d93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 21/41] fix: polynomial root finder returns only the roots

---
 src/util/EllipsoidSeparation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/EllipsoidSeparation.cpp b/src/util/EllipsoidSeparation.cpp
index 8e44f78..2afd040 100644
--- a/src/util/EllipsoidSeparation.cpp
+++ b/src/util/EllipsoidSeparation.cpp
@@ -190,7 +190,7 @@ bool hrm::isEllipseSeparated(const SuperEllipse& ellipsoidA,
 std::vector<std::complex<double>> hrm::getRootsPolynomial(
     const std::vector<double>& coeffs) {
     const auto matsz = static_cast<Eigen::Index>(coeffs.size() - 1);
-    std::vector<std::complex<double>> vret(matsz);
+    std::vector<std::complex<double>> vret;
     Eigen::MatrixXd companionMatrix = Eigen::MatrixXd::Zero(matsz, matsz);
 
     // Construct the companion matrix
-- 
2.43.0


From 34c207fedb1f60e19962b67e301dff44c53033b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 22/41] fix: collision mesh of a superellipse has its exponent
 in the plane

---
 src/util/EllipsoidSQCollisionFCL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/EllipsoidSQCollisionFCL.cpp b/src/util/EllipsoidSQCollisionFCL.cpp
index 8c9e94b..4d860c6 100644
--- a/src/util/EllipsoidSQCollisionFCL.cpp
+++ b/src/util/EllipsoidSQCollisionFCL.cpp
@@ -86,7 +86,7 @@ fcl::CollisionObject<double> hrm::setCollisionObjectFromSQ(
     // Mesh model
     const SuperQuadrics objAux(
         {object.getSemiAxis().at(0), object.getSemiAxis().at(1), 0.1},
-        {object.getEpsilon(), 0.1}, {0.0, 0.0, 0.0},
+        {0.1, object.getEpsilon()}, {0.0, 0.0, 0.0},
         Eigen::Quaterniond::Identity(), 10);
     const Mesh objMesh = getMeshFromSQ(objAux);
     auto modelPtr = std::make_shared<fcl::BVHModel<fcl::OBBRSS<double>>>();
-- 
2.43.0


From 5d171b1bdae82cb0e074741bf39c3d88b7806038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 23/41] fix: mesh of each C-space boundary has the density of
 its own object

---
 src/datastructure/FreeSpace3D.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/datastructure/FreeSpace3D.cpp b/src/datastructure/FreeSpace3D.cpp
index 5ad4963..273ab75 100644
--- a/src/datastructure/FreeSpace3D.cpp
+++ b/src/datastructure/FreeSpace3D.cpp
@@ -16,13 +16,15 @@ void hrm::FreeSpace3D::computeCSpaceBoundaryMesh(const BoundaryInfo& bound) {
     cSpaceBoundaryMesh_.arena.resize(bound.arena.size());
     cSpaceBoundaryMesh_.obstacle.resize(bound.obstacle.size());
 
+    // One boundary for each body of the robot, sampled as the arena/obstacle
+    const size_t numBody = 1 + robot_.getNumLinks();
     for (size_t i = 0; i < bound.arena.size(); ++i) {
         cSpaceBoundaryMesh_.arena.at(i) = getMeshFromParamSurface(
-            bound.arena.at(i), arena_.at(0).getNumParam());
+            bound.arena.at(i), arena_.at(i / numBody).getNumParam());
     }
     for (size_t i = 0; i < bound.obstacle.size(); ++i) {
         cSpaceBoundaryMesh_.obstacle.at(i) = getMeshFromParamSurface(
-            bound.obstacle.at(i), obstacle_.at(0).getNumParam());
+            bound.obstacle.at(i), obstacle_.at(i / numBody).getNumParam());
     }
 }
 
-- 
2.43.0


From afc5a0e9c9fe43838c086811874f5192943e9f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 24/41] fix: 3D C-space boundary of a link is relative to the
 robot base

---
 src/datastructure/MultiBodyTree3D.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/datastructure/MultiBodyTree3D.cpp b/src/datastructure/MultiBodyTree3D.cpp
index eff2e76..6c9c55d 100644
--- a/src/datastructure/MultiBodyTree3D.cpp
+++ b/src/datastructure/MultiBodyTree3D.cpp
@@ -97,8 +97,9 @@ std::vector<hrm::BoundaryPoints> hrm::MultiBodyTree3D::minkSum(
 
     // Minkowski sums for Links
     for (size_t i = 0; i < numLinks_; ++i) {
-        mink.emplace_back(s1.getMinkSum3D(link_.at(i), k).colwise() -
-                          Point3D(link_.at(i).getPosition().data()));
+        const Point3D linkTc = Point3D(link_.at(i).getPosition().data()) -
+                               Point3D(base_.getPosition().data());
+        mink.emplace_back(s1.getMinkSum3D(link_.at(i), k).colwise() - linkTc);
     }
 
     return mink;
-- 
2.43.0


From d8af3a5267e1c224ac4ee980dc54c5d23a56f9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 25/41] fix: numeric CSV files are read in double precision

---
 src/util/Parse2dCsvFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Parse2dCsvFile.cpp b/src/util/Parse2dCsvFile.cpp
index f910e75..8101dea 100644
--- a/src/util/Parse2dCsvFile.cpp
+++ b/src/util/Parse2dCsvFile.cpp
@@ -22,7 +22,7 @@ std::vector<std::vector<double>> hrm::parse2DCsvFile(
                     break;
                 }
                 try {
-                    record.emplace_back(stof(line));
+                    record.emplace_back(stod(line));
                 } catch (const std::invalid_argument& e) {
                     std::cout << "NaN found in file " << filename << " line "
                               << l << std::endl;
-- 
2.43.0


From 383a3b9c09bf25d0b5dba9e8cbfde7f913daf3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 26/41] fix: no refinement of an articulated roadmap after it
 is solved or timed out

---
 src/planners/ProbHRM3D.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 4067c4f..1287cf6 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -49,8 +49,9 @@ void hrm::planners::ProbHRM3D::plan(const double timeLim) {
         res_.planningTime.totalTime =
             res_.planningTime.buildTime + res_.planningTime.searchTime;
 
-        // Double the number of sweep lines for every 10 iterations
-        if (param_.numSlice % 60 == 0 &&
+        // Double the number of sweep lines for every 60 iterations
+        if (!res_.solved && res_.planningTime.totalTime < timeLim &&
+            param_.numSlice % 60 == 0 &&
             vertexIdxAll_.size() < param_.numPoint) {
             refineExistRoadmap(timeLim);
         }
-- 
2.43.0


From 8e8717396538e664a064345728a2e1b05e0751d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 27/41] fix: vertices of a refined articulated C-slice have the
 joints of that slice

---
 include/hrm/planners/ProbHRM3D.h | 3 +++
 src/planners/ProbHRM3D.cpp       | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/hrm/planners/ProbHRM3D.h b/include/hrm/planners/ProbHRM3D.h
index 8c3ec93..b316188 100644
--- a/include/hrm/planners/ProbHRM3D.h
+++ b/include/hrm/planners/ProbHRM3D.h
@@ -57,6 +57,9 @@ class ProbHRM3D : public HRM3D {
     /** \brief Name of URDF file */
     std::string urdfFile_;
 
+    /** \brief Configuration that the robot has been transformed to */
+    std::vector<Coordinate> vCurrent_;
+
     /** \brief Limit of joint angles */
     const double maxJointAngle_ = HALF_PI;
 };
diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 1287cf6..2985323 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -166,7 +166,7 @@ void hrm::planners::ProbHRM3D::connectMultiSlice() {
 void hrm::planners::ProbHRM3D::generateVertices(const Coordinate tx,
                                                 const FreeSegment2D& freeSeg) {
     numVertex_.plane.clear();
-    std::vector<Coordinate> vertex(v_.back().size());
+    std::vector<Coordinate> vertex(vCurrent_.size());
 
     for (size_t i = 0; i < freeSeg.ty.size(); ++i) {
         numVertex_.plane.push_back(res_.graphStructure.vertex.size());
@@ -182,8 +182,8 @@ void hrm::planners::ProbHRM3D::generateVertices(const Coordinate tx,
             vertex.at(6) = robot_.getBase().getQuaternion().z();
 
             // Configuration of joints
-            for (size_t m = 7; m < v_.back().size(); ++m) {
-                vertex.at(m) = v_.back().at(m);
+            for (size_t m = 7; m < vCurrent_.size(); ++m) {
+                vertex.at(m) = vCurrent_.at(m);
             }
 
             // Construct a std::vector of vertex
@@ -211,6 +211,7 @@ void hrm::planners::ProbHRM3D::setTransform(const std::vector<Coordinate>& V) {
     }
 
     robot_.robotTF(urdfFile_, g, jointConfig);
+    vCurrent_ = V;
 }
 
 // Construct Tight-Fitted Ellipsoid (TFE) for articulated body
-- 
2.43.0


From 08d6b77195f1bf3321ed06c89481a43c4331e70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 28/41] fix: line-triangle intersection with sliver triangles

---
 src/geometry/LineIntersection.cpp | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/geometry/LineIntersection.cpp b/src/geometry/LineIntersection.cpp
index b5f1d59..73ec566 100644
--- a/src/geometry/LineIntersection.cpp
+++ b/src/geometry/LineIntersection.cpp
@@ -141,8 +141,8 @@ bool hrm::intersectLineTriangle3D(const Line3D& line, const Eigen::Vector3d& t0,
     const double tol = 1e-12;
 
     // triangle normal
-    Eigen::Vector3d n;
-    n = u.cross(v);
+    const Eigen::Vector3d areaNormal = u.cross(v);
+    Eigen::Vector3d n = areaNormal;
     n.normalize();
 
     // vector between triangle origin and line origin
@@ -158,28 +158,20 @@ bool hrm::intersectLineTriangle3D(const Line3D& line, const Eigen::Vector3d& t0,
     // coordinates of intersection point
     pt = line.head(3) + a / b * line.tail(3);
 
-    // Test if intersection point is inside triangle
-    // normalize direction vectors of triangle edges
-    const double uu = u.dot(u);
-    const double uv = u.dot(v);
-    const double vv = v.dot(v);
-
-    // coordinates of vector v in triangle basis
-    const double wu = u.dot(pt - t0);
-    const double wv = v.dot(pt - t0);
-
-    // normalization constant
-    const double D = pow(uv, 2) - uu * vv;
+    // Test if intersection point is inside triangle, coordinates from signed
+    // areas stay accurate for slivers
+    const Eigen::Vector3d w = pt - t0;
+    const double D = areaNormal.squaredNorm();
 
     // test first coordinate
-    const double s = (uv * wv - vv * wu) / D;
-    if ((s < -tol) || (s > 1.0 + tol)) {
+    const double s = w.cross(v).dot(areaNormal) / D;
+    if (!(s >= -tol && s <= 1.0 + tol)) {
         return false;
     }
 
     // test second coordinate and third triangle edge
-    const double t = (uv * wu - uu * wv) / D;
-    return !((t < -tol) || (s + t > 1.0 + tol));
+    const double t = u.cross(w).dot(areaNormal) / D;
+    return t >= -tol && s + t <= 1.0 + tol;
 }
 
 bool hrm::isIntersectSegPolygon2D(
-- 
2.43.0


From 35f07b0d460cc1f8316cce01570d34e42b19341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 29/41] fix: collision of an ellipsoid that lies inside a
 superquadric mesh

---
 src/util/EllipsoidSQCollisionFCL.cpp | 31 +++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/util/EllipsoidSQCollisionFCL.cpp b/src/util/EllipsoidSQCollisionFCL.cpp
index 4d860c6..547d6e4 100644
--- a/src/util/EllipsoidSQCollisionFCL.cpp
+++ b/src/util/EllipsoidSQCollisionFCL.cpp
@@ -2,8 +2,35 @@
 
 #include "hrm/util/EllipsoidSQCollisionFCL.h"
 
+#include <cmath>
+#include <vector>
+
 using GeometryPtr = std::shared_ptr<fcl::CollisionGeometry<double>>;
 
+/** \brief Inside-outside test of a point. Mesh models only collide at their
+ * facets, so that an object enclosed in one needs to be detected separately
+ */
+static bool isPointInside(const hrm::SuperQuadrics& object,
+                          const std::vector<double>& point) {
+    const Eigen::Vector3d diff(point.at(0) - object.getPosition().at(0),
+                               point.at(1) - object.getPosition().at(1),
+                               point.at(2) - object.getPosition().at(2));
+    const Eigen::Vector3d local =
+        object.getQuaternion().toRotationMatrix().transpose() * diff;
+    const double eps1 = object.getEpsilon().at(0);
+    const double eps2 = object.getEpsilon().at(1);
+
+    return std::pow(
+               std::pow(std::fabs(local(0) / object.getSemiAxis().at(0)),
+                        2.0 / eps2) +
+                   std::pow(std::fabs(local(1) / object.getSemiAxis().at(1)),
+                            2.0 / eps2),
+               eps2 / eps1) +
+               std::pow(std::fabs(local(2) / object.getSemiAxis().at(2)),
+                        2.0 / eps1) <
+           1.0;
+}
+
 bool hrm::isCollision(const SuperQuadrics& object1,
                       fcl::CollisionObject<double> collisionObject1,
                       const SuperQuadrics& object2,
@@ -21,7 +48,9 @@ bool hrm::isCollision(const SuperQuadrics& object1,
     fcl::CollisionResult<double> result;
     fcl::collide(&collisionObject1, &collisionObject2, request, result);
 
-    return result.isCollision();
+    return result.isCollision() ||
+           isPointInside(object1, object2.getPosition()) ||
+           isPointInside(object2, object1.getPosition());
 }
 
 bool hrm::isCollision(const SuperEllipse& object1,
-- 
2.43.0


From e7bb21e511515b493d63d7bea880870a5a39154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 30/41] fix: Minkowski difference is trimmed where it folds
 outside of the arena

---
 include/hrm/geometry/MinkowskiDifference.h | 47 ++++++++++++++++++++++
 src/geometry/SuperEllipse.cpp              |  6 +++
 src/geometry/SuperQuadrics.cpp             |  6 +++
 3 files changed, 59 insertions(+)
 create mode 100644 include/hrm/geometry/MinkowskiDifference.h

diff --git a/include/hrm/geometry/MinkowskiDifference.h b/include/hrm/geometry/MinkowskiDifference.h
new file mode 100644
index 0000000..77f0a4d
--- /dev/null
+++ b/include/hrm/geometry/MinkowskiDifference.h
@@ -0,0 +1,47 @@
+/** \author Sipu Ruan */
+
+#pragma once
+
+#include "hrm/datastructure/DataType.h"
+
+#include "Eigen/Dense"
+
+#include <algorithm>
+#include <limits>
+
+namespace hrm {
+
+/** \brief Trim closed-form Minkowski difference boundary to the positions where
+ * the inner body stays within the shape. Where the shape is more curved than
+ * the inner body, the closed-form points fold over outside of the region
+ * \param points Closed-form boundary points, trimmed along the rays from the
+ * center. NaN if the inner body does not fit in the shape at all
+ * \param normals Outward normals at each of the points
+ * \param center Center of the (centrally-symmetric) shape */
+inline void trimMinkowskiDifference(BoundaryPoints& points,
+                                    const Eigen::MatrixXd& normals,
+                                    const Eigen::VectorXd& center) {
+    const BoundaryPoints offset = points.colwise() - center;
+
+    // Half-spaces that contain the difference
+    const Eigen::RowVectorXd bound =
+        normals.cwiseProduct(offset).colwise().sum();
+    if (bound.minCoeff() < 0.0) {
+        points.setConstant(std::numeric_limits<double>::quiet_NaN());
+        return;
+    }
+
+    for (auto i = 0; i < points.cols(); ++i) {
+        const Eigen::RowVectorXd height = offset.col(i).transpose() * normals;
+
+        double scale = 1.0;
+        for (auto j = 0; j < height.size(); ++j) {
+            if (height(j) > bound(j)) {
+                scale = std::min(scale, bound(j) / height(j));
+            }
+        }
+        points.col(i) = center + scale * offset.col(i);
+    }
+}
+
+}  // namespace hrm
diff --git a/src/geometry/SuperEllipse.cpp b/src/geometry/SuperEllipse.cpp
index c80caa9..e98a3cb 100644
--- a/src/geometry/SuperEllipse.cpp
+++ b/src/geometry/SuperEllipse.cpp
@@ -1,6 +1,7 @@
 /** \authors Sipu Ruan, Qianli Ma */
 
 #include "hrm/geometry/SuperEllipse.h"
+#include "hrm/geometry/MinkowskiDifference.h"
 #include "hrm/util/ExponentialFunction.h"
 
 #include <cmath>
@@ -98,5 +99,10 @@ hrm::BoundaryPoints hrm::SuperEllipse::getMinkSum2D(const SuperEllipse &shapeB,
         (K * r * Tinv * Tinv * R1 * gradPhi)
             .cwiseQuotient(ones * (Tinv * R1 * gradPhi).colwise().norm());
 
+    if (K < 0) {
+        trimMinkowskiDifference(xMinkowski, R1.matrix() * gradPhi,
+                                Point2D(position_.data()));
+    }
+
     return xMinkowski;
 }
diff --git a/src/geometry/SuperQuadrics.cpp b/src/geometry/SuperQuadrics.cpp
index 1e15db8..1fb1b8a 100644
--- a/src/geometry/SuperQuadrics.cpp
+++ b/src/geometry/SuperQuadrics.cpp
@@ -1,6 +1,7 @@
 /** \authors Sipu Ruan, Qianli Ma */
 
 #include "hrm/geometry/SuperQuadrics.h"
+#include "hrm/geometry/MinkowskiDifference.h"
 #include "hrm/util/ExponentialFunction.h"
 
 #include <iostream>
@@ -139,5 +140,10 @@ hrm::BoundaryPoints hrm::SuperQuadrics::getMinkSum3D(
                      .cwiseQuotient(Eigen::MatrixXd::Constant(3, 1, 1) *
                                     (Tinv * R1 * gradPhi).colwise().norm());
 
+    if (K < 0) {
+        trimMinkowskiDifference(xMinkowski, R1 * gradPhi,
+                                Point3D(position_.data()));
+    }
+
     return xMinkowski;
 }
-- 
2.43.0


From 95e4c10a2950c4b1b2d065768e91b891ed05d8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 31/41] fix: links are enclosed through the whole rotation
 between two 2D C-slices

---
 src/planners/HRM2D.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index efe85d9..328c510 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -386,15 +386,13 @@ void hrm::planners::HRM2D::computeTFE(const double thetaA, const double thetaB,
                            param_.numPoint, robot_.getBase().getNum()));
 
     for (size_t i = 0; i < robot_.getNumLinks(); ++i) {
-        Eigen::Rotation2Dd rotLink(
+        // The link rotates through the same angles as the base
+        const Eigen::Rotation2Dd rotLink(
             Eigen::Matrix2d(robot_.getTF().at(i).topLeftCorner(2, 2)));
-        Eigen::Rotation2Dd rotA(Eigen::Rotation2Dd(thetaA).toRotationMatrix() *
-                                rotLink);
-        Eigen::Rotation2Dd rotB(Eigen::Rotation2Dd(thetaB).toRotationMatrix() *
-                                rotLink);
-
-        tfe.push_back(getTFE2D(
-            robot_.getLinks().at(i).getSemiAxis(), rotA.angle(), rotB.angle(),
-            uint(param_.numPoint), robot_.getLinks().at(i).getNum()));
+
+        tfe.push_back(getTFE2D(robot_.getLinks().at(i).getSemiAxis(),
+                               thetaA + rotLink.angle(),
+                               thetaB + rotLink.angle(), uint(param_.numPoint),
+                               robot_.getLinks().at(i).getNum()));
     }
 }
-- 
2.43.0


From c0d26659b2608c7736a1a16d2429dce09b7b0868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:48 +0000
Subject: [PATCH 32/41] fix: bridge vertices within a 3D C-slice do not leave
 the arena

---
 src/planners/HRM3D.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index dcedb1f..9a4f528 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -351,8 +351,11 @@ bool hrm::planners::HRM3D::isSameSliceTransitionFree(
 
     // Intersection between line and mesh
     struct intersect {
-        intersect(Line3D line, Point3D t1, Point3D t2)
-            : line_(std::move(line)), t1_(std::move(t1)), t2_(std::move(t2)) {}
+        intersect(Line3D line, Point3D t1, Point3D t2, const double tol)
+            : line_(std::move(line)),
+              t1_(std::move(t1)),
+              t2_(std::move(t2)),
+              tol_(tol) {}
 
         bool operator()(const MeshMatrix& obs) const {
             bool isIntersect = false;
@@ -369,7 +372,7 @@ bool hrm::planners::HRM3D::isSameSliceTransitionFree(
 
                 // Intersect within segment (t1, t2) iff dot product
                 // less than 0
-                isIntersect = ((s0 < 0) || (s1 < 0));
+                isIntersect = ((s0 < -tol_) || (s1 < -tol_));
             }
 
             return isIntersect;
@@ -378,11 +381,16 @@ bool hrm::planners::HRM3D::isSameSliceTransitionFree(
         Line3D line_;
         Point3D t1_;
         Point3D t2_;
+        double tol_;
     };
 
+    // Neither enter any of the obstacles nor leave any of the arenas
     return !std::any_of(sliceBoundMesh_.obstacle.cbegin(),
                         sliceBoundMesh_.obstacle.cend(),
-                        intersect(line, t1, t2));
+                        intersect(line, t1, t2, 0.0)) &&
+           !std::any_of(sliceBoundMesh_.arena.cbegin(),
+                        sliceBoundMesh_.arena.cend(),
+                        intersect(line, t1, t2, EPSILON));
 }
 
 bool hrm::planners::HRM3D::isMultiSliceTransitionFree(
-- 
2.43.0


From 73fb18e2a2a7b5a7a9f9252be22056b954588248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:02 +0000
Subject: [PATCH 33/41] fix: search time of a sampled slice is not counted
 again as build time of the next

---
 src/planners/ProbHRM3D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 2985323..a9e9ab6 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -16,10 +16,11 @@ hrm::planners::ProbHRM3D::ProbHRM3D(const MultiBodyTree3D& robot,
 hrm::planners::ProbHRM3D::~ProbHRM3D() = default;
 
 void hrm::planners::ProbHRM3D::plan(const double timeLim) {
-    auto start = Clock::now();
     param_.numSlice = 0;
 
     do {
+        auto start = Clock::now();
+
         // Randomly generate rotations and joint angles
         sampleOrientations();
 
-- 
2.43.0


From 0ff668a57ef640a3dc2533a25bedf571e6480f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 34/41] fix: OMPL wrappers keep their own copy of the bounds
 and meshes

setup() read the caller's vectors through references, long after the constructor returned.
---
 include/hrm/planners/ompl_interface/OMPL3D.h        | 2 +-
 include/hrm/planners/ompl_interface/OMPLInterface.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hrm/planners/ompl_interface/OMPL3D.h b/include/hrm/planners/ompl_interface/OMPL3D.h
index 57d693f..c639900 100644
--- a/include/hrm/planners/ompl_interface/OMPL3D.h
+++ b/include/hrm/planners/ompl_interface/OMPL3D.h
@@ -54,7 +54,7 @@ class OMPL3D : public OMPLInterface<MultiBodyTree3D, SuperQuadrics> {
         const ob::State* state) const override;
 
     /** \brief Mesh type for obstacles */
-    const std::vector<Mesh>& obsMesh_;
+    const std::vector<Mesh> obsMesh_;
 };
 
 }  // namespace ompl_interface
diff --git a/include/hrm/planners/ompl_interface/OMPLInterface.h b/include/hrm/planners/ompl_interface/OMPLInterface.h
index d993783..f1b3a7e 100644
--- a/include/hrm/planners/ompl_interface/OMPLInterface.h
+++ b/include/hrm/planners/ompl_interface/OMPLInterface.h
@@ -159,10 +159,10 @@ class OMPLInterface {
     std::vector<ObjectType> arena_;
 
     /** \brief Lower bound of the arena */
-    const std::vector<double>& lowBound_;
+    const std::vector<double> lowBound_;
 
     /** \brief Upper bound of the arena */
-    const std::vector<double>& highBound_;
+    const std::vector<double> highBound_;
 
     /** \brief Obstacles model */
     std::vector<ObjectType> obstacle_;
-- 
2.43.0


From 62f005c1e9f8778759aa2c71bcb4b97b4894a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 35/41] fix: planning again with an OMPL wrapper starts from
 scratch

Paths, trees and counters of earlier calls were kept, so that a second call
could report the first call's path, or continue a tree from its start.
---
 include/hrm/planners/ompl_interface/OMPLInterface-inl.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
index 15fba8f..585ef68 100644
--- a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
+++ b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
@@ -62,10 +62,17 @@ bool OMPLInterface<RobotType, ObjectType>::plan(
     const std::vector<Coordinate> &start, const std::vector<Coordinate> &goal,
     const double maxTimeInSec) {
     isSolved_ = false;
+    lengthPath_ = 0;
+    path_.clear();
+    path_interp_.clear();
     if (!ss_) {
         return isSolved_;
     }
 
+    // Forget the planning data and solutions of previous calls
+    ss_->clear();
+    ss_->getSpaceInformation()->getMotionValidator()->resetMotionCounter();
+
     // Set start and goal states for planning
     setStartAndGoalState(start, goal);
 
-- 
2.43.0


From d668b8dad4530f5a236508d6a6133e29d1103b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 36/41] fix: an approximate OMPL solution is not reported as
 solved

The reported path ended short of the goal.
---
 include/hrm/planners/ompl_interface/OMPLInterface-inl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
index 585ef68..d45959e 100644
--- a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
+++ b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
@@ -85,7 +85,9 @@ bool OMPLInterface<RobotType, ObjectType>::plan(
         // Get solution status
         totalTime_ = ss_->getLastPlanComputationTime();
 
-        if (solved && totalTime_ < maxTimeInSec) {
+        // An approximate solution does not reach the goal
+        if (solved == ob::PlannerStatus::EXACT_SOLUTION &&
+            totalTime_ < maxTimeInSec) {
             // Number of nodes in solved path
             lengthPath_ = ss_->getSolutionPath().getStates().size();
             isSolved_ = true;
-- 
2.43.0


From a84981d5b3345988b3c9c58d2e9fd8de0646bcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 37/41] fix: OMPL2D reports the vertices and edges of the
 current planner data

The loops ran up to the number of valid motions of the previous call.
---
 src/planners/ompl_interface/OMPL2D.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/planners/ompl_interface/OMPL2D.cpp b/src/planners/ompl_interface/OMPL2D.cpp
index b4a8cf1..f89b44f 100644
--- a/src/planners/ompl_interface/OMPL2D.cpp
+++ b/src/planners/ompl_interface/OMPL2D.cpp
@@ -45,7 +45,7 @@ void hrm::planners::ompl_interface::OMPL2D::getSolution() {
     // Save vertices and edges
     const ob::State *state;
     vertex_.clear();
-    for (auto i = 0; i < numValidStates_; ++i) {
+    for (unsigned int i = 0; i < numGraphVertex_; ++i) {
         state = pd.getVertex(i).getState()->as<ob::State>();
         vertex_.push_back(
             {state->as<ob::SE2StateSpace::StateType>()->getX(),
@@ -53,9 +53,9 @@ void hrm::planners::ompl_interface::OMPL2D::getSolution() {
              state->as<ob::SE2StateSpace::StateType>()->getYaw()});
     }
 
-    std::vector<std::vector<unsigned int>> edgeInfo(numValidStates_);
+    std::vector<std::vector<unsigned int>> edgeInfo(numGraphVertex_);
     edge_.clear();
-    for (auto i = 0; i < numValidStates_; i++) {
+    for (unsigned int i = 0; i < numGraphVertex_; i++) {
         pd.getEdges(i, edgeInfo[i]);
         for (auto edgeI : edgeInfo[i]) {
             edge_.emplace_back(std::make_pair(i, edgeI));
-- 
2.43.0


From da94de05db1ab2758fa9a5c782fd55965287fde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 38/41] fix: OMPL2D reports the solution path and the
 interpolated path separately

The interpolated states were stored as the solution path, the interpolated path stayed empty.
---
 src/planners/ompl_interface/OMPL2D.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/planners/ompl_interface/OMPL2D.cpp b/src/planners/ompl_interface/OMPL2D.cpp
index f89b44f..40bca24 100644
--- a/src/planners/ompl_interface/OMPL2D.cpp
+++ b/src/planners/ompl_interface/OMPL2D.cpp
@@ -22,13 +22,14 @@ void hrm::planners::ompl_interface::OMPL2D::getSolution() {
         auto path = ss_->getSolutionPath();
         lengthPath_ = ss_->getSolutionPath().getStates().size();
 
+        for (auto *state : path.getStates()) {
+            path_.push_back(setVectorFromState(state));
+        }
+
         // Save interpolated path
         path.interpolate(INTERPOLATION_NUMBER);
         for (auto *state : path.getStates()) {
-            path_.push_back(
-                {state->as<ob::SE2StateSpace::StateType>()->getX(),
-                 state->as<ob::SE2StateSpace::StateType>()->getY(),
-                 state->as<ob::SE2StateSpace::StateType>()->getYaw()});
+            path_interp_.push_back(setVectorFromState(state));
         }
     }
 
-- 
2.43.0


From cbc9cffd0e4bda577022102a3fe9afede8662708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 39/41] fix: OMPL3D counts the states of the simplified path it
 reports

---
 src/planners/ompl_interface/OMPL3D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/planners/ompl_interface/OMPL3D.cpp b/src/planners/ompl_interface/OMPL3D.cpp
index cc6d399..745df4a 100644
--- a/src/planners/ompl_interface/OMPL3D.cpp
+++ b/src/planners/ompl_interface/OMPL3D.cpp
@@ -23,6 +23,7 @@ void hrm::planners::ompl_interface::OMPL3D::getSolution() {
             // Get solution path
             ss_->simplifySolution();
             auto path = ss_->getSolutionPath();
+            lengthPath_ = path.getStates().size();
             for (auto *state : path.getStates()) {
                 path_.push_back(setVectorFromState(state));
             }
-- 
2.43.0


From b8615adffdcbe56b5d15e4b10a9fbf4e3e148eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:53 +0000
Subject: [PATCH 40/41] fix: parse2DCsvFile skips blank lines

A blank line (for example at the end of a file) gave an empty record, and
the loaders of geometric models read past its end.
---
 src/util/Parse2dCsvFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/Parse2dCsvFile.cpp b/src/util/Parse2dCsvFile.cpp
index 8101dea..1a54cb1 100644
--- a/src/util/Parse2dCsvFile.cpp
+++ b/src/util/Parse2dCsvFile.cpp
@@ -12,7 +12,8 @@ std::vector<std::vector<double>> hrm::parse2DCsvFile(
         if (!getline(inputFile, s)) {
             break;
         }
-        if (s[0] != '#') {
+        // Skip comments and blank lines
+        if (s.find_first_not_of(" \t\r") != std::string::npos && s[0] != '#') {
             std::istringstream ss(s);
             std::vector<double> record;
 
-- 
2.43.0


From 63eec32c659580276ee56711e02297a032eb5c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:58 +0000
Subject: [PATCH 41/41] fix: Python robot takes joint values in the planners'
 order

For a branching robot whose joints are not listed in depth-first order of
their names, the joint values of a planned configuration were applied to
other joints than the planners applied them to.
---
 demo/python/MultiBodyTree.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/demo/python/MultiBodyTree.py b/demo/python/MultiBodyTree.py
index 9aa468b..4a41c75 100644
--- a/demo/python/MultiBodyTree.py
+++ b/demo/python/MultiBodyTree.py
@@ -21,6 +21,15 @@ class MultiBodyTree:
         # For articulated robot
         if self.urdf_file is not None:
             self.robot_urdf = rtb.ERobot.URDF(urdf_file)
+            self.joint_order = self.get_joint_order(self.robot_urdf.links[0])
+
+    def get_joint_order(self, link):
+        # Order of joints used by the planners: depth first, children sorted by joint name
+        order = [link.jindex] if link.isjoint else []
+        for child in sorted(link.children, key=lambda x: x._joint_name):
+            order += self.get_joint_order(child)
+
+        return order
 
     def add_body(self, link, i):
         if i > self.num_link:
@@ -47,7 +56,9 @@ class MultiBodyTree:
             # Link transformation relative to BASE (NOT the "base" in this class).
             # "MultiBodyTree.base" object is the 1st link using robotics toolbox definition.
             # Therefore, g_links has size of "num_link+2".
-            g_links = self.robot_urdf.fkine_all(joint_config)
+            q = np.zeros(len(self.joint_order))
+            q[self.joint_order] = joint_config[:len(self.joint_order)]
+            g_links = self.robot_urdf.fkine_all(q)
 
             for i in range(self.num_link):
                 # Offset from body frame to ellipsoid center
-- 
2.43.0

