From 37328257e14b1b4e568dab4353798074d8a68e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 01/55] fix: define matToVec2d inside the namespace it is
 declared in

---
 ndt_gslam/include/ndt_gslam/utils/eigen_tools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h b/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h
index f8259ce..7e2a65b 100644
--- a/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h
+++ b/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h
@@ -234,7 +234,7 @@ Eigen::Matrix<Out, 3, 3> eigt::vecToMat2d(const Eigen::Matrix<In, 3, 1> &trans)
 }
 
 template <typename In, typename Out = In>
-Eigen::Matrix<Out, 3, 1> matToVec2d(const Eigen::Matrix<In, 3, 3> &trans)
+Eigen::Matrix<Out, 3, 1> eigt::matToVec2d(const Eigen::Matrix<In, 3, 3> &trans)
 {
   Eigen::Matrix<Out, 3, 1> vec;
   Eigen::Transform<In, 2, Eigen::Affine, Eigen::ColMajor> trans_mat(trans);
@@ -246,7 +246,7 @@ Eigen::Matrix<Out, 3, 1> matToVec2d(const Eigen::Matrix<In, 3, 3> &trans)
 }
 
 template <typename In, typename Out = In>
-Eigen::Matrix<Out, 3, 1> matToVec2d(const Eigen::Matrix<In, 4, 4> &trans)
+Eigen::Matrix<Out, 3, 1> eigt::matToVec2d(const Eigen::Matrix<In, 4, 4> &trans)
 {
   Eigen::Matrix<Out, 3, 1> vec;
   Eigen::Transform<In, 3, Eigen::Affine, Eigen::ColMajor> trans_mat(trans);
-- 
2.43.0


From 8eac1ed780029aaa26bc9fdefba226c1e0e7c5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 02/55] fix: removeEdge accepted the id one past the last edge

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index c6e1319..b148888 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -99,7 +99,7 @@ typename Graph<P, T>::Id Graph<P, T>::addEdge(E&& edg)
 template <typename P, typename T>
 bool Graph<P, T>::removeEdge(Id edge_id)
 {
-  if (edge_id > edges_.size())
+  if (edge_id >= edges_.size())
     return false;
   if (std::find(id_edge_pool_.begin(), id_edge_pool_.end(), edge_id) !=
       id_edge_pool_.end())
-- 
2.43.0


From 0358486b06b5212fda6f58a13bad23ec2832ace7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 03/55] fix: removeEdge left dangling edge pointers in both
 nodes

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index b148888..b13a519 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -2,6 +2,7 @@
 #define NDT_GSLAM_POSE_GRAPH
 
 #include <Eigen/Eigen>
+#include <algorithm>
 #include <iostream>
 #include <map>
 #include <memory>
@@ -104,6 +105,12 @@ bool Graph<P, T>::removeEdge(Id edge_id)
   if (std::find(id_edge_pool_.begin(), id_edge_pool_.end(), edge_id) !=
       id_edge_pool_.end())
     return false;
+  // nodes must not keep pointers to an edge which is going to be freed
+  E* edge = edges_[edge_id].get();
+  auto& out = nodes_[edge->getFrom()->getId()]->getEdgesOut();
+  out.erase(std::remove(out.begin(), out.end(), edge), out.end());
+  auto& in = nodes_[edge->getTo()->getId()]->getEdgesIn();
+  in.erase(std::remove(in.begin(), in.end(), edge), in.end());
   id_edge_pool_.push_back(edge_id);
   edges_[edge_id].reset(nullptr);
   return true;
-- 
2.43.0


From cac45bba981f6275f4f83e9d77d72921d8c7ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 04/55] fix: graph iterators started on removed edges and read
 past the end

---
 .../include/ndt_gslam/slam_optimizer/pose_graph.h    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index b13a519..6761b49 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -267,12 +267,16 @@ public:
   ListIterator(const DataIter& begin, const DataIter& end)
     : current_(begin), end_(end)
   {
+    // removed elements at the beginning are not part of the sequence
+    while (current_ != end_ && *current_ == nullptr) {
+      ++current_;
+    }
   }
   self_type operator++()
   {
     ++current_;
     // in case of empty field in list skip this field and go on
-    while (*current_ == nullptr && current_ != end_) {
+    while (current_ != end_ && *current_ == nullptr) {
       ++current_;
     }
     return *this;
@@ -325,12 +329,16 @@ public:
   ConstListIterator(const DataIter& begin, const DataIter& end)
     : current_(begin), end_(end)
   {
+    // removed elements at the beginning are not part of the sequence
+    while (current_ != end_ && *current_ == nullptr) {
+      ++current_;
+    }
   }
   self_type operator++()
   {
     ++current_;
     // in case of empty field in list skip this field and go on
-    while (*current_ == nullptr && current_ != end_) {
+    while (current_ != end_ && *current_ == nullptr) {
       ++current_;
     }
     return *this;
-- 
2.43.0


From 527f48212c9ecc47131c9b3f8bc0f75ce1ab820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 05/55] fix: copying a voxel grid doubled its storage and
 dereferenced empty cells

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 05de2c7..3714f0c 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -310,10 +310,12 @@ VoxelGrid2D<CellType>::VoxelGrid2D(const VoxelGrid2D& other)
   , valid_cells_(other.valid_cells_)
 {
   cells_.resize(other.cells_.size());
-  for (const std::unique_ptr<CellType>& cell : other.cells_) {
-    CellType* new_cell = new CellType;
-    *new_cell = *cell;
-    cells_.emplace_back(new_cell);
+  for (size_t i = 0; i < cells_.size(); ++i) {
+    // most of the cells in the grid are usually not initialized
+    if (other.cells_[i].get() == nullptr)
+      continue;
+    cells_[i].reset(new CellType());
+    *cells_[i] = *other.cells_[i];
   }
 }
 
-- 
2.43.0


From a35557fde82c23e00ede5a02ab34c039aff3a94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 06/55] fix: removeCell ran off its end without returning a
 value

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 3714f0c..5dcea0d 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -384,10 +384,11 @@ bool VoxelGrid2D<CellType>::removeCell(const Point& posistion)
   if (!isInside(posistion))
     return false;
   size_t idx = calcIndex(posistion);
-  if (cells_[idx].get() != nullptr) {
-    --valid_cells_;
-  }
+  if (cells_[idx].get() == nullptr)
+    return false;
+  --valid_cells_;
   cells_[idx].reset(nullptr);
+  return true;
 }
 
 template <typename CellType>
-- 
2.43.0


From a2126acbcbe30e4719630e1ed652c3ddd495b1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 07/55] fix: clear, rayTrace and translate left a wrong count
 of valid cells

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 5dcea0d..6628b6e 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -549,6 +549,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
 
   if (cells_[idx_current].get() == nullptr) {
     cells_[idx_current].reset(new CellType());
+    ++valid_cells_;
   }
   res.push_back(cells_[idx_current].get());
   double total_dist = 0;
@@ -558,6 +559,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
     if (idx_current != idx_old) {
       if (cells_[idx_current].get() == nullptr) {
         cells_[idx_current].reset(new CellType());
+        ++valid_cells_;
       }
       res.push_back(cells_[idx_current].get());
       // std::cout << p.transpose() << std::endl;
@@ -598,6 +600,12 @@ void VoxelGrid2D<CellType>::translate(const Eigen::Vector2i& translation,
   moveRight(right);
   moveUp(up);
   moveDown(down);
+  // some of the cells could have been moved out of the grid
+  valid_cells_ = 0;
+  for (const auto& cell : cells_) {
+    if (cell.get() != nullptr)
+      ++valid_cells_;
+  }
 }
 
 template <typename CellType>
@@ -606,6 +614,7 @@ void VoxelGrid2D<CellType>::clear()
   for (auto&& cell : cells_) {
     cell.reset(nullptr);
   }
+  valid_cells_ = 0;
 }
 
 template <typename CellType>
-- 
2.43.0


From 1d0238d2ec9f78d65a65dab433a960382bb4cdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 08/55] fix: getCentroid cast member functions instead of the
 grid extents

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 6628b6e..bfeb287 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -472,9 +472,11 @@ VoxelGrid2D<CellType>::getCentroid(const Point& pt) const
 {
   std::pair<size_t, size_t> coords = calcCoordinates(pt);
   double x =
-      (static_cast<long>(coords.first) - static_cast<long>(left)) * cell_size_;
+      (static_cast<long>(coords.first) - static_cast<long>(width_left_)) *
+      cell_size_;
   double y =
-      -(static_cast<long>(coords.second) - static_cast<long>(up)) * cell_size_;
+      -(static_cast<long>(coords.second) - static_cast<long>(height_up_)) *
+      cell_size_;
   return std::pair<double, double>(x, y);
 }
 
-- 
2.43.0


From 0dbb1e696fa82093b893fa780657edee85f861c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 09/55] fix: points on the border of a voxel grid were inside
 it but indexed past it

---
 .../include/ndt_gslam/ndt/voxel_grid2d.h      | 55 ++++++++++---------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index bfeb287..1f91b9e 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -266,6 +266,8 @@ private:
   size_t calcIndex(const std::pair<size_t, size_t>& coords) const;
   // <colls, rows> of table
   std::pair<size_t, size_t> calcCoordinates(const Point& pt) const;
+  // <colls, rows> from the centroid cell. Does not depend on extents of grid.
+  Point calcOffset(const Point& pt) const;
 
   void enlargeToFit(const Point& pt);
   size_t calcIncLeft(float pt) const;
@@ -394,15 +396,11 @@ bool VoxelGrid2D<CellType>::removeCell(const Point& posistion)
 template <typename CellType>
 bool VoxelGrid2D<CellType>::isInside(const Point& pt) const
 {
-  if (pt(0) >=
-          -static_cast<double>(width_left_) * cell_size_ - cell_size_half_ &&
-      pt(0) <= width_right_ * cell_size_ + cell_size_half_ &&
-      pt(1) >=
-          -static_cast<double>(height_down_) * cell_size_ - cell_size_half_ &&
-      pt(1) <= height_up_ * cell_size_ + cell_size_half_)
-    return true;
-  else
-    return false;
+  Point offset = calcOffset(pt);
+  return offset(0) >= -static_cast<double>(width_left_) &&
+         offset(0) <= static_cast<double>(width_right_) &&
+         offset(1) >= -static_cast<double>(height_up_) &&
+         offset(1) <= static_cast<double>(height_down_);
 }
 
 template <typename CellType>
@@ -523,13 +521,6 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
   Point start_in;
   bool end_indise = false;
   Point delta;
-  double minx =
-      -static_cast<double>(width_left_) * cell_size_ - cell_size_half_;
-  double maxx = width_right_ * cell_size_ + cell_size_half_;
-  double miny =
-      -static_cast<double>(height_down_) * cell_size_ - cell_size_half_;
-  double maxy = height_up_ * cell_size_ + cell_size_half_;
-
   if (!isInside(start)) {
     return res;
   }
@@ -567,7 +558,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
       // std::cout << p.transpose() << std::endl;
     }
     p += delta;
-    if (p(0) >= maxx || p(0) <= minx || p(1) >= maxy || p(1) <= miny)
+    if (!isInside(p))
       return res;
     idx_old = idx_current;
     idx_current = calcIndex(p);
@@ -659,24 +650,34 @@ std::pair<size_t, size_t>
 VoxelGrid2D<CellType>::calcCoordinates(const Point& pt) const
 {
   std::pair<size_t, size_t> coords;
-  float minx = cell_size_ * width_left_;
-  float maxy = cell_size_ * height_up_;
-  coords.first = static_cast<size_t>(
-      std::floor((pt(0) + minx + cell_size_half_) / cell_size_));
-  coords.second = static_cast<size_t>(
-      std::floor((-pt(1) + maxy + cell_size_half_) / cell_size_));
+  Point offset = calcOffset(pt);
+  coords.first = static_cast<size_t>(offset(0) + width_left_);
+  coords.second = static_cast<size_t>(offset(1) + height_up_);
   return coords;
 }
 
+template <typename CellType>
+typename VoxelGrid2D<CellType>::Point
+VoxelGrid2D<CellType>::calcOffset(const Point& pt) const
+{
+  return Point(std::floor((pt(0) + cell_size_half_) / cell_size_),
+               std::floor((-pt(1) + cell_size_half_) / cell_size_));
+}
+
 template <typename CellType>
 void VoxelGrid2D<CellType>::enlargeToFit(const Point& pt)
 {
-  // keep in sync with calculation in isInside. Mostly operator< and widths
-  // calculations
   if (isInside(pt))
     return;
-  enlargeGrid(calcIncLeft(pt(0)), calcIncRight(pt(0)), calcIncUp(pt(1)),
-              calcIncDown(pt(1)));
+  Point offset = calcOffset(pt);
+  double left = -offset(0) - static_cast<double>(width_left_);
+  double right = offset(0) - static_cast<double>(width_right_);
+  double up = -offset(1) - static_cast<double>(height_up_);
+  double down = offset(1) - static_cast<double>(height_down_);
+  enlargeGrid(left > 0 ? static_cast<size_t>(left) : 0,
+              right > 0 ? static_cast<size_t>(right) : 0,
+              up > 0 ? static_cast<size_t>(up) : 0,
+              down > 0 ? static_cast<size_t>(down) : 0);
 }
 
 template <typename CellType>
-- 
2.43.0


From 699bc0a84c7f9c3d504b6ccb3da62e3b666dd5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 10/55] fix: rays shorter than one cell underflowed the number
 of steps

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 1f91b9e..8b093f2 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -546,7 +546,9 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
   }
   res.push_back(cells_[idx_current].get());
   double total_dist = 0;
-  for (size_t i = 0; i < 2 * static_cast<size_t>(std::floor(length)) - 1; ++i) {
+  // rays shorter than one cell do not leave the first cell
+  size_t steps = 2 * static_cast<size_t>(std::floor(length));
+  for (size_t i = 0; i + 1 < steps; ++i) {
     // total_dist += delta_dist;
     // if program  is still in the same cell like last time just step forward
     if (idx_current != idx_old) {
-- 
2.43.0


From 6e5327173cb14af342592b8ce168d638a020be10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 11/55] fix: a cell with a degenerate covariance was always
 accepted as a gaussian

---
 ndt_gslam/src/ndt/ndt_cell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/src/ndt/ndt_cell.cpp b/ndt_gslam/src/ndt/ndt_cell.cpp
index f3294eb..7a19460 100644
--- a/ndt_gslam/src/ndt/ndt_cell.cpp
+++ b/ndt_gslam/src/ndt/ndt_cell.cpp
@@ -219,6 +219,7 @@ void NDTCell::rescaleCovar()
   Eigen::SelfAdjointEigenSolver<Matrix> solver(cov_);
   Matrix evacs = solver.eigenvectors();
   Matrix evals = solver.eigenvalues().asDiagonal();
+  gaussian_ = true;
   if (evals(0, 0) < 0 || evals(1, 1) < 0 || evals(2, 2) <= 0)
     gaussian_ = false;
 
@@ -232,7 +233,6 @@ void NDTCell::rescaleCovar()
   if (icov_.maxCoeff() == std::numeric_limits<float>::infinity() ||
       icov_.minCoeff() == -std::numeric_limits<float>::infinity())
     gaussian_ = false;
-  gaussian_ = true;
 }
 
 double NDTCell::calcMaxLikelihoodOnLine(const Vector &start, const Vector &end,
-- 
2.43.0


From 0e15f8557fb1900f41ea7afc05a4bc8fad2dea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 12/55] fix: a ray of zero length turned the occupancy of a
 cell into NaN

---
 ndt_gslam/src/ndt/ndt_cell.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndt_gslam/src/ndt/ndt_cell.cpp b/ndt_gslam/src/ndt/ndt_cell.cpp
index 7a19460..a03e66a 100644
--- a/ndt_gslam/src/ndt/ndt_cell.cpp
+++ b/ndt_gslam/src/ndt/ndt_cell.cpp
@@ -155,6 +155,9 @@ void NDTCell::updateOccupancy(const Vector &start, const Vector &end,
   double lik = calcMaxLikelihoodOnLine(start, end, pt_out);
   // std::cout << "lik: " << lik << " point: " << pt_out.transpose() <<
   // std::endl;
+  // ray without a direction says nothing about this cell
+  if (lik < 0)
+    return;
   double l2_target = (pt_out - end).norm();
 
   // double dist = (start - pt_out).norm();
-- 
2.43.0


From dd3171e293b453fd6f4a11902d735f99644f8ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 13/55] fix: covarInverse compared off-diagonal zeros instead
 of eigenvalues

---
 ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h b/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
index 34f3223..5fd50a0 100644
--- a/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
+++ b/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
@@ -31,7 +31,7 @@ bool covarInverse(const Eigen::Matrix<Scalar, 3, 3> &cov,
     double max_eval = evals.maxCoeff();
     // test if every eigenval is big enough
     for (int i = 0; i < evals.cols(); ++i) {
-      if (max_eval > evals(i) * eval_factor) {
+      if (max_eval > evals(i, i) * eval_factor) {
         evals(i, i) = max_eval / eval_factor;
         recalc = true;
       }
-- 
2.43.0


From 99af22df7063d97617c9ee9bacfe9d9ffd7af551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:42 +0000
Subject: [PATCH 14/55] fix: line search took the maximizer of the cubic when
 stepping backwards

---
 .../include/ndt_gslam/registration/ndt_reg_tools.h    | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h b/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h
index 8179fe0..c84bf37 100644
--- a/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h
@@ -154,7 +154,8 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // g_t
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_l) / (a_t - a_l) - g_t - g_l;
-    double w = std::sqrt(z * z - g_t * g_l);
+    // the root is taken on the side of the minimizer also when a_t < a_l
+    double w = std::copysign(std::sqrt(z * z - g_t * g_l), a_t - a_l);
     // Equation 2.4.56 [Sun, Yuan 2006]
     double a_c = a_l + (a_t - a_l) * (w - g_l - z) / (g_t - g_l + 2 * w);
 
@@ -176,7 +177,8 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // g_t
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_l) / (a_t - a_l) - g_t - g_l;
-    double w = std::sqrt(z * z - g_t * g_l);
+    // the root is taken on the side of the minimizer also when a_t < a_l
+    double w = std::copysign(std::sqrt(z * z - g_t * g_l), a_t - a_l);
     // Equation 2.4.56 [Sun, Yuan 2006]
     double a_c = a_l + (a_t - a_l) * (w - g_l - z) / (g_t - g_l + 2 * w);
 
@@ -197,7 +199,8 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // g_t
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_l) / (a_t - a_l) - g_t - g_l;
-    double w = std::sqrt(z * z - g_t * g_l);
+    // the root is taken on the side of the minimizer also when a_t < a_l
+    double w = std::copysign(std::sqrt(z * z - g_t * g_l), a_t - a_l);
     double a_c = a_l + (a_t - a_l) * (w - g_l - z) / (g_t - g_l + 2 * w);
 
     // Calculate the minimizer of the quadratic that interpolates g_l and g_t
@@ -223,7 +226,7 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // g_t
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_u) / (a_t - a_u) - g_t - g_u;
-    double w = std::sqrt(z * z - g_t * g_u);
+    double w = std::copysign(std::sqrt(z * z - g_t * g_u), a_t - a_u);
     // Equation 2.4.56 [Sun, Yuan 2006]
     return (a_u + (a_t - a_u) * (w - g_u - z) / (g_t - g_u + 2 * w));
   }
-- 
2.43.0


From e74a9ef98f45998f1f4682d795811038dd4f328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:42 +0000
Subject: [PATCH 15/55] fix: splitting by an empty token never ended

---
 ndt_gslam/include/ndt_gslam/utils/string_tools.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/utils/string_tools.h b/ndt_gslam/include/ndt_gslam/utils/string_tools.h
index bbf24e5..699e1aa 100644
--- a/ndt_gslam/include/ndt_gslam/utils/string_tools.h
+++ b/ndt_gslam/include/ndt_gslam/utils/string_tools.h
@@ -22,6 +22,11 @@ std::vector<std::string> split(const std::string& data,
                                const std::string& token)
 {
   std::vector<std::string> output;
+  // an empty token is found everywhere without consuming any data
+  if (token.empty()) {
+    output.push_back(data);
+    return output;
+  }
   size_t pos = std::string::npos;
   std::string temp = data;
   do {
-- 
2.43.0


From 6398e37c3ed00b3521ac2743d1987ab4ee4c1268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:06 +0000
Subject: [PATCH 16/55] fix: a rejected optimizer step was not undone in the
 switch variable

---
 .../switchable_constraints/vertex_switchLinear.h             | 2 +-
 .../switchable_constraints/vertex_switchLinear.cpp           | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
index c8b104d..2548507 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
@@ -32,7 +32,7 @@ public:
 
   double x() const
   {
-    return _x;
+    return _estimate;
   };
 
   //! The gradient at the current estimate is always 1;
diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
index 676c512..885e71b 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
@@ -23,7 +23,7 @@ bool VertexSwitchLinear::read(std::istream& is)
 
 bool VertexSwitchLinear::write(std::ostream& os) const
 {
-  os << _x;
+  os << _estimate;
   return os.good();
 }
 
@@ -41,7 +41,8 @@ void VertexSwitchLinear::setEstimate(const double& et)
 
 void VertexSwitchLinear::oplusImpl(const double* update)
 {
-  _x += update[0];
+  // the estimate may have been restored from the backup stack since
+  _x = _estimate + update[0];
 
   if (_x < 0)
     _x = 0;
-- 
2.43.0


From 54609c7bf2837d3d3f8de0dbf0d1dee373065e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:06 +0000
Subject: [PATCH 17/55] fix: robust vertices and edges accepted truncated
 records

---
 .../switchable_constraints/edge_se2Switchable.cpp             | 4 ++--
 .../switchable_constraints/edge_switchPrior.cpp               | 4 ++--
 .../switchable_constraints/vertex_switchLinear.cpp            | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp
index b0ae7ad..9bc31d1 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp
@@ -30,7 +30,7 @@ EdgeSE2Switchable::EdgeSE2Switchable() : g2o::BaseMultiEdge<3, g2o::SE2>()
 // ================================================
 bool EdgeSE2Switchable::read(std::istream& is)
 {
-  Vector3d p;
+  Vector3d p = Vector3d::Zero();
   is >> p[0] >> p[1] >> p[2];
   setMeasurement(g2o::SE2(p));
   _inverseMeasurement = measurement().inverse();
@@ -41,7 +41,7 @@ bool EdgeSE2Switchable::read(std::istream& is)
       if (i != j)
         information()(j, i) = information()(i, j);
     }
-  return true;
+  return !is.fail();
 }
 // ================================================
 bool EdgeSE2Switchable::write(std::ostream& os) const
diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp
index 2d9ac54..f8d651b 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp
@@ -3,13 +3,13 @@ using namespace std;
 
 bool EdgeSwitchPrior::read(std::istream &is)
 {
-  double new_measurement;
+  double new_measurement = 0;
   is >> new_measurement;
 
   setMeasurement(new_measurement);
 
   is >> information()(0, 0);
-  return true;
+  return !is.fail();
 }
 
 bool EdgeSwitchPrior::write(std::ostream &os) const
diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
index 885e71b..1dbb22a 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
@@ -18,7 +18,7 @@ bool VertexSwitchLinear::read(std::istream& is)
   is >> _x;
   _estimate = _x;
 
-  return true;
+  return !is.fail();
 }
 
 bool VertexSwitchLinear::write(std::ostream& os) const
-- 
2.43.0


From 667c03931223e4a32a574d06d78763e1c52d5195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:06 +0000
Subject: [PATCH 18/55] fix: re-initialised mixtures kept the old components'
 determinants

---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp  | 3 ++-
 .../slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
index 7b65199..3f4da83 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
@@ -40,7 +40,7 @@ using namespace std;
 EdgeSE2Mixture::EdgeSE2Mixture() : g2o::EdgeSE2::EdgeSE2()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE2Mixture::~EdgeSE2Mixture()
@@ -61,6 +61,7 @@ void EdgeSE2Mixture::initializeComponents(std::vector<g2o::EdgeSE2*>& _edges,
   this->weights = _weights;
 
   numberComponents = _edges.size();
+  determinants.clear();
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
index 36ce3f2..5c71505 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
@@ -41,7 +41,7 @@ EdgeSE2PointXYMixture::EdgeSE2PointXYMixture()
   : g2o::EdgeSE2PointXY::EdgeSE2PointXY()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE2PointXYMixture::~EdgeSE2PointXYMixture()
@@ -62,6 +62,7 @@ void EdgeSE2PointXYMixture::initializeComponents(
   this->weights = _weights;
   // UpdateBelief(0);
   numberComponents = _edges.size();
+  determinants.clear();
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
-- 
2.43.0


From 45ab572238d4d877d479a92a472f7a882089ec8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:38 +0000
Subject: [PATCH 19/55] fix: mixtures read from a truncated record crashed

---
 .../src/slam_optimizer/max_mixture/edge_se2_mixture.cpp  | 9 ++++++++-
 .../max_mixture/edge_se2_pointxy_mixture.cpp             | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
index 3f4da83..8082523 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
@@ -138,6 +138,9 @@ void EdgeSE2Mixture::computeBestEdge()
 bool EdgeSE2Mixture::read(std::istream& is)
 {
   is >> numberComponents;
+  allEdges.clear();
+  weights.clear();
+  determinants.clear();
 
   allEdges.reserve(numberComponents);
   weights.reserve(numberComponents);
@@ -158,6 +161,8 @@ bool EdgeSE2Mixture::read(std::istream& is)
     int na, nb;
     is >> na;
     is >> nb;
+    if (is.fail())
+      return false;
 
     VertexSE2* v0 = static_cast<VertexSE2*>(va->graph()->vertex(na));
     VertexSE2* v1 = static_cast<VertexSE2*>(va->graph()->vertex(nb));
@@ -180,13 +185,15 @@ bool EdgeSE2Mixture::read(std::istream& is)
       }
     allEdges[c]->setInformation(inf);
   }
+  if (is.fail() || numberComponents <= 0)
+    return false;
 
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
   // UpdateBelief(0);
   computeBestEdge();
-  return is.good();
+  return true;
 }
 
 bool EdgeSE2Mixture::write(std::ostream& os) const
diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
index 5c71505..78f92d4 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
@@ -134,6 +134,9 @@ void EdgeSE2PointXYMixture::computeBestEdge()
 bool EdgeSE2PointXYMixture::read(std::istream& is)
 {
   is >> numberComponents;
+  allEdges.clear();
+  weights.clear();
+  determinants.clear();
 
   allEdges.reserve(numberComponents);
   weights.reserve(numberComponents);
@@ -156,6 +159,8 @@ bool EdgeSE2PointXYMixture::read(std::istream& is)
     int na, nb;
     is >> na;
     is >> nb;
+    if (is.fail())
+      return false;
 
     VertexSE2* v0 = static_cast<VertexSE2*>(va->graph()->vertex(na));
     VertexPointXY* v1 = static_cast<VertexPointXY*>(va->graph()->vertex(nb));
@@ -178,12 +183,14 @@ bool EdgeSE2PointXYMixture::read(std::istream& is)
       }
     allEdges[c]->setInformation(inf);
   }
+  if (is.fail() || numberComponents <= 0)
+    return false;
 
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
   computeBestEdge();
-  return is.good();
+  return true;
 }
 
 EdgeSE2PointXY* EdgeSE2PointXYMixture::getComponent(unsigned int i)
-- 
2.43.0


From f94bb1961a56c9b46975f0203bdce2184142bf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:00 +0000
Subject: [PATCH 20/55] fix: cells of a constant NDT grid could not be accessed

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 5db1e57..10038ac 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -685,14 +685,14 @@ operator[](const PointType &pt) const
 {
   typename DataGrid::Point point;
   point << pt.x, pt.y;
-  return grid_[point];
+  return *grid_.getCellPtr(point);
 }
 
 template <typename CellType, typename PointType>
 const CellType &NDTGrid2D<CellType, PointType>::
 operator[](const Eigen::Vector2d &pt) const
 {
-  return grid_[pt];
+  return *grid_.getCellPtr(pt);
 }
 
 template <typename CellType, typename PointType>
-- 
2.43.0


From 72735dfc220f4415c31697911b79e272d2fddb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:00 +0000
Subject: [PATCH 21/55] fix: merging into a resized NDT grid replaced cells
 instead of merging them

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 10038ac..4e1ee11 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -503,7 +503,7 @@ void NDTGrid2D<CellType, PointType>::mergeIn(const std::vector<CellType> &cells,
     grid_.enlarge(minx, miny, maxx, maxy);
     for (auto &&cell : cells) {
       if (cell.hasGaussian()) {
-        grid_.addCell(cell.getMean().head(2), cell, false);
+        grid_.addCell(cell.getMean().head(2), cell);
       }
     }
   } else {
-- 
2.43.0


From 75b33302be4a5efab2e3a6e29e20d304a0eef6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:00 +0000
Subject: [PATCH 22/55] fix: the coarser grid lost the origin of the grid it
 was made from

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 4e1ee11..e71a3f9 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -744,7 +744,7 @@ NDTGrid2D<CellType, PointType>::createCoarserGrid(float cell_size) const
   if (cell_size < cell_size_)
     cell_size = cell_size_;
 
-  SelfType coarse_grid;
+  SelfType coarse_grid(origin_, timestamp_);
   coarse_grid.setCellSize(cell_size);
   auto cells = grid_.getValidCells();
   coarse_grid.mergeIn(cells, true);
-- 
2.43.0


From 4d435dc8727e5f007669093e15c78d7de470f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:00 +0000
Subject: [PATCH 23/55] fix: NDT grids constructed with an origin had no cloud
 of means

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index e71a3f9..083104f 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -457,6 +457,8 @@ NDTGrid2D<CellType, PointType>::NDTGrid2D(const Eigen::Vector3d &origin,
   , initialized_(false)
   , timestamp_(timestamp)
   , grid_()
+  , kdtree_()
+  , means_(new PointCloud())
 {
   grid_.setCellSize(cell_size_);
 }
-- 
2.43.0


From 38b72bdd08ab7c1cd412dfbda3f01fdb9a6af79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:00 +0000
Subject: [PATCH 24/55] fix: the origin of serialized NDT grids negated an
 unsigned number

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 083104f..a0954f4 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -862,7 +862,7 @@ template <typename CellType, typename PointType>
 NDTGridMsg NDTGrid2D<CellType, PointType>::serialize() const
 {
   NDTGridMsg msg;
-  Eigen::Vector2d corner_origin(-grid_.left() * cell_size_,
+  Eigen::Vector2d corner_origin(-static_cast<double>(grid_.left()) * cell_size_,
                                 grid_.up() * cell_size_);
   eigt::transform2d_t<double> trans =
       eigt::transBtwFrames(origin_, Eigen::Vector3d(0, 0, 0));
-- 
2.43.0


From 689778afdc906f05f245a86daf4ab468fff4e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:00 +0000
Subject: [PATCH 25/55] fix: serialized NDT grids had an uninitialised heading

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index a0954f4..a0f2c56 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -867,6 +867,7 @@ NDTGridMsg NDTGrid2D<CellType, PointType>::serialize() const
   eigt::transform2d_t<double> trans =
       eigt::transBtwFrames(origin_, Eigen::Vector3d(0, 0, 0));
   msg.origin_.head(2) = trans * corner_origin;
+  msg.origin_(2) = origin_(2);
   msg.size_ << grid_.width() * cell_size_, grid_.height() * cell_size_, 0;
   msg.cell_sizes_ << cell_size_, cell_size_, 0;
   for (auto &&cell : grid_.getValidCellsPtr()) {
-- 
2.43.0


From 705fa44518d0fda3bf2bf3fa4e6098cfbe0c93c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:00 +0000
Subject: [PATCH 26/55] fix: the centroid of an NDT grid was twice as far as
 its centre

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index a0f2c56..cc0966a 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -383,8 +383,8 @@ public:
    */
   Eigen::Vector2d getCentroid() const
   {
-    double x = grid_.right() * cell_size_ - grid_.left() * cell_size_;
-    double y = (grid_.up() * cell_size_ - grid_.down() * cell_size_);
+    double x = (grid_.right() * cell_size_ - grid_.left() * cell_size_) / 2;
+    double y = (grid_.up() * cell_size_ - grid_.down() * cell_size_) / 2;
     return Eigen::Vector2d(x, y);
   }
 
-- 
2.43.0


From a5290e819502a79eb1795c88ad8e0ab0475e14ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:15 +0000
Subject: [PATCH 27/55] fix: a cleared NDT grid still answered queries with its
 old means

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index cc0966a..a6240d4 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -395,6 +395,8 @@ public:
   {
     grid_.clear();
     initialized_ = false;
+    updateMeansCloud();
+    updateKDTree();
   }
 
   /**
-- 
2.43.0


From e0a1019c3f32e0aecaa2ea6f5cd6321c9fdddb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:15 +0000
Subject: [PATCH 28/55] fix: the radius of a tall NDT grid did not reach its
 farthest cells

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index a6240d4..854af51 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -374,7 +374,8 @@ public:
    */
   double getRadius() const
   {
-    return grid_.width() * cell_size_ + grid_.height() * cell_size_ / 4;
+    return std::hypot(grid_.width() * cell_size_, grid_.height() * cell_size_) /
+           2;
   }
   /**
    * @brief      Gets the centroid of the grid.
-- 
2.43.0


From a1c4f3f4f71c9bac5845e2ac321686504856259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:15 +0000
Subject: [PATCH 29/55] fix: rays were traced before the NDT grid was enlarged
 to fit the new cells

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 854af51..24189ee 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -578,6 +578,12 @@ void NDTGrid2D<CellType, PointType>::mergeInTraced(const SelfType &grid,
   }
   // conversion from x y theta pose to x,y,z coordinates for 3dCell interface
   typename CellType::Vector start(origin2(0), origin2(1), 0);
+  if (resize || !initialized_) {
+    // rays are traced only inside of the grid
+    float minx, miny, maxx, maxy;
+    pcl::getMinMaxNDT2D(occupied_cells, minx, miny, maxx, maxy);
+    grid_.enlarge(minx, miny, maxx, maxy);
+  }
   // std::cout << "start: " << start.transpose() << std::endl;
   // go over all cells in grid, whichh is merging in.
   for (auto &&cell : occupied_cells) {
-- 
2.43.0


From 8be17c8b4139c41349984a80b54e5e0b4b9965c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:43 +0000
Subject: [PATCH 30/55] fix: nearest neighbours next to a cell border were
 looked up in the wrong cell

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 24189ee..d0e048e 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -419,6 +419,8 @@ protected:
   DataGrid grid_;
   pcl::KdTreeFLANN<PointType> kdtree_;
   typename PointCloud::Ptr means_;
+  // positions of cells in means_ without rounding to the precision of PointType
+  std::vector<Eigen::Vector2d> mean_positions_;
 
   void mergeIn(std::vector<CellType> &&cells, bool resize);
   void addPoint(const PointType &pt);
@@ -984,8 +986,9 @@ NDTGrid2D<CellType, PointType>::getKNearestNeighborsKDTree(
   std::vector<float> distances;
   kdtree_.nearestKSearch(point, K, res_indexes, distances);
   for (int id : res_indexes) {
-    PointType near_pt = means_->at(id);
-    res.push_back(grid_.getCellPtr(Eigen::Vector2d(near_pt.x, near_pt.y)));
+    const Eigen::Vector2d &near_pt = mean_positions_.at(id);
+    if (grid_.cellExists(near_pt))
+      res.push_back(grid_.getCellPtr(near_pt));
   }
   return res;
 }
@@ -994,6 +997,7 @@ template <typename CellType, typename PointType>
 void NDTGrid2D<CellType, PointType>::updateMeansCloud()
 {
   typename PointCloud::Ptr pcl(new PointCloud());
+  mean_positions_.clear();
   for (auto &&cell : getGaussianCells()) {
     PointType pt;
     Eigen::Vector3d mean = cell->getMean();
@@ -1001,6 +1005,7 @@ void NDTGrid2D<CellType, PointType>::updateMeansCloud()
     pt.y = mean(1);
     pt.z = mean(2);
     pcl->push_back(pt);
+    mean_positions_.push_back(mean.head(2));
   }
   means_ = pcl;
 }
-- 
2.43.0


From 8529d0fa7d2e56a70f6d94ff75281f4db7c44c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:25 +0000
Subject: [PATCH 31/55] fix: removing, moving and combining frames of the
 mapper did not compile

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
index 3f909b2..9853422 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
@@ -110,7 +110,8 @@ private:
   FrameStorage grids_;
   typename Pcl::Ptr means_;
   // return id of frame if found. Otherwise exception
-  typename FrameStorage::iterator getFrameIterator(const NDTGrid2DPtr &frame);
+  typename FrameStorage::iterator
+  getFrameIterator(const NDTGrid2DConstPtr &frame);
   void addToMap(const Grid &frame);
 };
 
@@ -164,7 +165,7 @@ template <typename CellType, typename PointType>
 void NDTMapper<CellType, PointType>::updateFrame(const NDTGrid2DPtr &frame,
                                                  const Pose &pose)
 {
-  getFrameIterator(frame)->setOrigin(pose);
+  (*getFrameIterator(frame))->setOrigin(pose);
 }
 
 template <typename CellType, typename PointType>
@@ -172,11 +173,12 @@ typename NDTMapper<CellType, PointType>::NDTGrid2DPtr
 NDTMapper<CellType, PointType>::combineFrames(const NDTGrid2DPtr &a,
                                               const NDTGrid2DPtr &b)
 {
-  Grid *frame_a = getFrameIterator(a)->get();
-  Grid *frame_b = getFrameIterator(b)->get();
+  NDTGrid2DPtr frame_a = *getFrameIterator(a);
+  NDTGrid2DPtr frame_b = *getFrameIterator(b);
   frame_a->mergeInTraced(*frame_b, true, true);
   frame_a->setTimestamp(frame_b->getTimestamp());
   removeFrame(frame_b);
+  return frame_a;
 }
 
 template <typename CellType, typename PointType>
@@ -219,9 +221,9 @@ NDTMapper<CellType, PointType>::calcOccupancyGridMsg() const
 
 template <typename CellType, typename PointType>
 typename NDTMapper<CellType, PointType>::FrameStorage::iterator
-NDTMapper<CellType, PointType>::getFrameIterator(const NDTGrid2DPtr &frame)
+NDTMapper<CellType, PointType>::getFrameIterator(const NDTGrid2DConstPtr &frame)
 {
-  auto iter = grids_.find(frame);
+  auto iter = std::find(grids_.begin(), grids_.end(), frame);
   if (iter == grids_.end())
     throw std::invalid_argument("Id of frame doesn't exist");
   return iter;
-- 
2.43.0


From d01e98a668a88ebb9b735d5cff5450a0077d4e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:25 +0000
Subject: [PATCH 32/55] fix: the published occupancy map was upside down and
 half a cell off

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
index 9853422..1758fce 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
@@ -211,9 +211,22 @@ NDTMapper<CellType, PointType>::calcOccupancyGridMsg() const
   occ_msg.info.height = map_.height_;
   occ_msg.info.width = map_.width_;
   occ_msg.info.resolution = map_.resolution_;
-  occ_msg.info.origin = EigenToPoseMsg(map_.origin_);
+  // rows of the message go from bottom to top and start in the lower left corner
+  // of the lower left cell. Our map starts in the center of the top left cell.
+  eigt::transform2d_t<double> top_left = eigt::getTransFromPose(map_.origin_);
+  Eigen::Vector2d corner(-0.5 * map_.resolution_,
+                         (0.5 - static_cast<double>(map_.height_)) *
+                             map_.resolution_);
+  Eigen::Vector3d origin = map_.origin_;
+  origin.head(2) = top_left * corner;
+  occ_msg.info.origin = EigenToPoseMsg(origin);
   occ_msg.info.map_load_time = map_recalc_time_;
-  occ_msg.data = map_.cells_;
+  occ_msg.data.reserve(map_.cells_.size());
+  for (size_t row = map_.height_; row > 0; --row) {
+    auto row_begin = map_.cells_.begin() + (row - 1) * map_.width_;
+    occ_msg.data.insert(occ_msg.data.end(), row_begin,
+                        row_begin + map_.width_);
+  }
   return occ_msg;
 }
 
-- 
2.43.0


From 056e813d785c41d9dbeff5c9c493a26d2c398e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 33/55] fix: neighbours whose mean was rounded over a cell
 border were not found in their cell

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index d0e048e..b12211f 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -133,6 +133,8 @@ public:
   void enlarge(float left, float down, float right, float up)
   {
     grid_.enlarge(left, down, right, up);
+    updateMeansCloud();
+    updateKDTree();
   }
 
   /**
@@ -419,8 +421,8 @@ protected:
   DataGrid grid_;
   pcl::KdTreeFLANN<PointType> kdtree_;
   typename PointCloud::Ptr means_;
-  // positions of cells in means_ without rounding to the precision of PointType
-  std::vector<Eigen::Vector2d> mean_positions_;
+  // positions in grid_ of cells which means are in means_
+  std::vector<size_t> mean_cells_;
 
   void mergeIn(std::vector<CellType> &&cells, bool resize);
   void addPoint(const PointType &pt);
@@ -986,9 +988,7 @@ NDTGrid2D<CellType, PointType>::getKNearestNeighborsKDTree(
   std::vector<float> distances;
   kdtree_.nearestKSearch(point, K, res_indexes, distances);
   for (int id : res_indexes) {
-    const Eigen::Vector2d &near_pt = mean_positions_.at(id);
-    if (grid_.cellExists(near_pt))
-      res.push_back(grid_.getCellPtr(near_pt));
+    res.push_back((grid_.cbegin() + mean_cells_.at(id))->get());
   }
   return res;
 }
@@ -997,15 +997,18 @@ template <typename CellType, typename PointType>
 void NDTGrid2D<CellType, PointType>::updateMeansCloud()
 {
   typename PointCloud::Ptr pcl(new PointCloud());
-  mean_positions_.clear();
-  for (auto &&cell : getGaussianCells()) {
+  mean_cells_.clear();
+  for (auto it = grid_.cbegin(); it != grid_.cend(); ++it) {
+    const CellType *cell = it->get();
+    if (cell == nullptr || !cell->hasGaussian())
+      continue;
     PointType pt;
     Eigen::Vector3d mean = cell->getMean();
     pt.x = mean(0);
     pt.y = mean(1);
     pt.z = mean(2);
     pcl->push_back(pt);
-    mean_positions_.push_back(mean.head(2));
+    mean_cells_.push_back(it - grid_.cbegin());
   }
   means_ = pcl;
 }
-- 
2.43.0


From fba410be950e334a6511e8e403bb4f2b21c76527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 34/55] fix: NDT2D added the second derivative of rotation to
 wrong parts of the Hessian

---
 ndt_gslam/include/ndt_gslam/registration/ndt2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/ndt2d.h b/ndt_gslam/include/ndt_gslam/registration/ndt2d.h
index 60b803a..6109c40 100644
--- a/ndt_gslam/include/ndt_gslam/registration/ndt2d.h
+++ b/ndt_gslam/include/ndt_gslam/registration/ndt2d.h
@@ -539,9 +539,9 @@ ndt_reg::ScoreAndDerivatives<3, double> NormalDistributionsTransform2DEx<
     for (long j = 0; j < 3; ++j) {
       // calculate hessian (eq. 6.13) [Magnusson 2009]
       if (i == 2 && j == 2) {
-        hess_part = hess_derivatives2;
-      } else {
         hess_part = hess_derivative;
+      } else {
+        hess_part = hess_derivatives2;
       }
       double jacc_i = diff_icov.dot(jacobian.col(i));
       double jacc_j = diff_icov.dot(jacobian.col(j));
-- 
2.43.0


From 2855c460626bf554c9089cc20785998e20870e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 35/55] fix: D2D rotated the source around the target's origin
 in derivatives

---
 ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h
index 7a86082..fb2008d 100644
--- a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h
+++ b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h
@@ -555,8 +555,9 @@ D2DNormalDistributionsTransform2D<PointSource, PointTarget, CellType>::calcScore
           trans_mat.rotation() * cell_cov * trans_mat.rotation().transpose();
       // compute derivatives of score function
       ndt_reg::JacobianHessianDerivatives partial_derivatives;
-      computeDerivatives(mean_source, cov_source, partial_derivatives,
-                         calc_hessian);
+      // (rotation turns the source around its origin)
+      computeDerivatives(trans_mat.linear() * cell_mean, cov_source,
+                         partial_derivatives, calc_hessian);
       TargetVec neighbors =
           targetNDT.getKNearestNeighbors(mean_source.head(2), 2);
       // std::cout << "neighbors: " << neighbors.size() << std::endl;
-- 
2.43.0


From 6b485d63fbf916a00ef77fdacd86c23fce62932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 36/55] fix: covariance and information of registrations were
 swapped and negative

---
 ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h | 5 +++--
 ndt_gslam/include/ndt_gslam/registration/ndt2d.h     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h
index fb2008d..db15e6f 100644
--- a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h
+++ b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h
@@ -508,8 +508,9 @@ bool D2DNormalDistributionsTransform2D<PointSource, PointTarget, CellType>::
   }
   trans = p;
   // final_transformation_ = transformation_;
-  covariance_ = score.hessian_;
-  inform_matrix_ = score.hessian_.inverse();
+  // score is maximized
+  inform_matrix_ = -score.hessian_;
+  covariance_ = inform_matrix_.inverse();
   return true;
 }
 ////////////////////////////////////////////////////////////////////////
diff --git a/ndt_gslam/include/ndt_gslam/registration/ndt2d.h b/ndt_gslam/include/ndt_gslam/registration/ndt2d.h
index 6109c40..8f3b89c 100644
--- a/ndt_gslam/include/ndt_gslam/registration/ndt2d.h
+++ b/ndt_gslam/include/ndt_gslam/registration/ndt2d.h
@@ -450,8 +450,9 @@ bool NormalDistributionsTransform2DEx<PointSource, PointTarget, CellType>::
   }
   final_transformation_ = transformation_;
   transformPointCloud(*input_, output, transformation_);
-  covariance_ = score.hessian_;
-  inform_matrix_ = score.hessian_.inverse();
+  // score is maximized
+  inform_matrix_ = -score.hessian_;
+  covariance_ = inform_matrix_.inverse();
   return true;
 }
 
-- 
2.43.0


From 6fe3e6f8d583053de56d68ab0514a8d8c01972f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 37/55] fix: correlative search ignored its initial guess in
 the result

---
 .../include/ndt_gslam/registration/correlative_estimation2d.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h
index 4d30c9b..f14b3d0 100644
--- a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h
+++ b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h
@@ -252,7 +252,7 @@ void CorrelativeEstimation<PointSource, PointTarget>::computeTransformation(
 
   // output data
   converged_ = true;
-  final_transformation_ = vecToMat(best_trans);  // * guess;
+  final_transformation_ = vecToMat(best_trans) * guess;
   transformPointCloud(*input_, output, final_transformation_);
 }
 
-- 
2.43.0


From 9a23ff1c5a6e304018eb8e5d8465122d8da72cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 38/55] fix: indexes into the lookup table left out its border

---
 .../ndt_gslam/registration/correlative_estimation_tools.h   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
index 9d5a5c9..79150f0 100644
--- a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
@@ -331,9 +331,11 @@ LookUpTable<PointType>::toIndexes(const pcl::PointCloud<PointType> &pcl) const
   for (size_t i = 0; i < pcl.points.size(); ++i) {
     IndexPoint pt;
     pt.x_idx_ = static_cast<int>(
-        std::floor((pcl.points[i].x - minx_ + cell_size_half_) / cell_size_));
+        std::floor((pcl.points[i].x - minx_ + cell_size_half_) / cell_size_) +
+        border_size_);
     pt.y_idx_ = static_cast<int>(
-        std::floor((-pcl.points[i].y + maxy_ + cell_size_half_) / cell_size_));
+        std::floor((-pcl.points[i].y + maxy_ + cell_size_half_) / cell_size_) +
+        border_size_);
     indexes.push_back(pt);
   }
   return indexes;
-- 
2.43.0


From 7f79a8c7add658eadb975a4e375502a24b700ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 39/55] fix: rounding moved the candidates of correlative
 search by a cell

---
 .../ndt_gslam/registration/correlative_estimation_tools.h     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
index 79150f0..09caaf4 100644
--- a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
@@ -358,8 +358,8 @@ void LookUpTable<PointType>::transformIndexes(
 {
   out.clear();
   out.reserve(source.size());
-  int add_x = static_cast<int>(std::floor(dx / cell_size_));
-  int add_y = -static_cast<int>(std::floor(dy / cell_size_));
+  int add_x = static_cast<int>(std::lround(dx / cell_size_));
+  int add_y = -static_cast<int>(std::lround(dy / cell_size_));
   // std::cout<<"transformPCLIndexes "<<add_x<<" y: "<<add_y<<"\n";
   for (size_t i = 0; i < source.size(); ++i) {
     IndexPoint new_pt;
-- 
2.43.0


From 4cbe06043ae7dd796d21a58113fbc574f40340c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 40/55] fix: points on the border of the lookup table were
 ignored

---
 .../ndt_gslam/registration/correlative_estimation_tools.h   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
index 09caaf4..453e213 100644
--- a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
@@ -384,8 +384,8 @@ void LookUpTable<PointType>::initGridWindowFce(
   // every point is projected to certain cell. If is cell in the grid we set
   // this cell OCCUPIED
   for (size_t i = 0; i < target.size(); ++i) {
-    if (target[i].x < maxx_ && target[i].y < maxy_ && target[i].x > minx_ &&
-        target[i].y > miny_) {
+    if (target[i].x <= maxx_ && target[i].y <= maxy_ && target[i].x >= minx_ &&
+        target[i].y >= miny_) {
       Eigen::Vector2f pt(target[i].x, target[i].y);
       size_t idx = getCellIdx(pt);
       table_[idx] = OCCUPIED_CELL;
@@ -438,7 +438,7 @@ void LookUpTable<PointType>::applyKernel(size_t row, size_t col)
 template <typename PointType>
 float LookUpTable<PointType>::getPtScore(const Eigen::Vector2f &pt) const
 {
-  if (pt(0) < maxx_ && pt(1) < maxy_ && pt(0) > minx_ && pt(1) > miny_) {
+  if (pt(0) <= maxx_ && pt(1) <= maxy_ && pt(0) >= minx_ && pt(1) >= miny_) {
     return table_[getCellIdx(pt)];
   }
   return 0;
-- 
2.43.0


From 68c49d91f3a54d076391d1e18907526eb9f3cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 41/55] fix: the scan matcher interface declared a function
 nobody defined

---
 .../include/ndt_gslam/slam_optimizer/graph_slam_interfaces.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/graph_slam_interfaces.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/graph_slam_interfaces.h
index d2ea79d..e2cf58a 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/graph_slam_interfaces.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/graph_slam_interfaces.h
@@ -241,7 +241,7 @@ public:
    *
    * @param[in]  score  The score
    */
-  virtual void setScoreThreshold(float score);
+  virtual void setScoreThreshold(float score) = 0;
 };
 
 }  // slamuk namespace
-- 
2.43.0


From 59f35b90a810d4705831701a4064fd4119896525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 42/55] fix: robust registration could return an uninitialised
 transformation

---
 ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
index 6d189d5..d936e60 100644
--- a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
+++ b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
@@ -331,11 +331,10 @@ void D2DNormalDistributionsTransform2DRobust<
   // standard D2D match try for good guess estimations
   d2d_.align(output, guess);
   double score = proofTransform(d2d_.getFinalTransformation());
-  Eigen::Matrix4f first_trans;
+  Eigen::Matrix4f first_trans = d2d_.getFinalTransformation();
   // test if first d2d has return bad result
   if (!(d2d_.hasConverged() && score > 0.7)) {
     // bad result -> robust alignment needed
-    first_trans = d2d_.getFinalTransformation();
     corr_est_.align(output, guess);
     if (!corr_est_.hasConverged()) {
       converged_ = false;
-- 
2.43.0


From a3aa9332520490f62fc252eff1722300095471c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 43/55] fix: outlier ratio of robust registration could not be
 read (did not compile)

---
 ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
index d936e60..64e0eb6 100644
--- a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
+++ b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
@@ -188,7 +188,7 @@ public:
    */
   double getOutlierRatio() const
   {
-    return d2d_.getOutlierRatio();
+    return d2d_.getOulierRatio();
   }
 
   /**
-- 
2.43.0


From 4b860fd1d4fdb6654e7ac4f98f068248c4cd24da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:28 +0000
Subject: [PATCH 44/55] fix: the way travelled to loop candidates started with
 an uninitialised distance

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
index 3917b2a..4e164fe 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
@@ -22,7 +22,8 @@ struct EdgeCov {
   double distance_;
   size_t hop_;
   EdgeCov()
-    : node_id_(0)
+    : start_id_(0)
+    , node_id_(0)
     , cov_(Covar::Zero())
     , t_(Transform::Identity())
     , distance_(0)
@@ -32,8 +33,10 @@ struct EdgeCov {
   }
   explicit EdgeCov(size_t start_id)
     : start_id_(start_id)
-    , cov_()
+    , node_id_(start_id)
+    , cov_(Covar::Zero())
     , t_(Transform::Identity())
+    , distance_(0)
     , hop_(0)
     , det_cov_(0)
   {
-- 
2.43.0


From 28beee4728550f08e1d6702f4bdf8e7c09578c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:28 +0000
Subject: [PATCH 45/55] fix: loop detection read past the last reachable node
 and matched nodes twice

---
 .../include/ndt_gslam/slam_optimizer/loop_detector.h   | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
index 4e164fe..5a179f4 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
@@ -234,9 +234,15 @@ std::vector<LoopClosure<P>> LoopDetector<P, T>::genLoopClosures(Id node_id)
     fringe.push(e);
   }
   size_t depth = 0;
-  // repeat while some nodes are unvisited
-  while (graph_->nodeCount() > nodes_visited && depth < max_search_depth_) {
+  // repeat while some reachable nodes are unvisited
+  while (!fringe.empty() && graph_->nodeCount() > nodes_visited &&
+         depth < max_search_depth_) {
     size_t curr_node_id = fringe.top().node_id_;
+    if (graph_->getNode(curr_node_id).isVisited()) {
+      // this node was already reached by another way
+      fringe.pop();
+      continue;
+    }
     std::cout << "node: " << curr_node_id << std::endl;
     Node &target_n = graph_->getNode(node_id);
     Node &source_n = graph_->getNode(curr_node_id);
-- 
2.43.0


From 12a3a4944c2d128876d650d6ba627e385e325957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 46/55] fix: odometry of motions too small for scan matching
 was lost

---
 ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
index 9063d5c..ef96876 100644
--- a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
+++ b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
@@ -219,8 +219,10 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
   }
   unused_trans_ = unused_trans_ * motion;
   if (!movedEnough(unused_trans_)) {
-    return eigt::getPoseFromTransform(position_ * motion);
+    return eigt::getPoseFromTransform(position_ * unused_trans_);
   }
+  // all odometry since the last used scan
+  const Transform odometry = unused_trans_;
   unused_trans_.setIdentity();
   FrameTypePtr local = FrameTypePtr(new FrameType());
   PointCloud::Ptr pcl_out(new PointCloud());
@@ -233,7 +235,7 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
   // inc_matcher_.setInputSource(local);
   inc_matcher_.align(
       *pcl_out,
-      eigt::convertFromTransform(position_cumul_ * motion).cast<float>());
+      eigt::convertFromTransform(position_cumul_ * odometry).cast<float>());
   //
   ROS_DEBUG_STREAM("[SLAM ALGORITHM]: incremental scanamtching converged:"
                    << inc_matcher_.hasConverged());
@@ -285,7 +287,7 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
     // scan-matching failed, use odometry
     // do not merge in scan - avoiding problems whit bad local map
     // position_ = position_ * motion;
-    updateGraph(motion, Covar::Identity() * 100, pcl, update_time);
+    updateGraph(odometry, Covar::Identity() * 100, pcl, update_time);
   }
   // unused_trans_.setIdentity();
   return eigt::getPoseFromTransform(position_);
-- 
2.43.0


From 30a27feee76f673a20c0ff74b1291d0597fc1eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 47/55] fix: motion by odometry was counted again by the next
 scan match

---
 ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
index ef96876..ede9b0c 100644
--- a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
+++ b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
@@ -288,6 +288,10 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
     // do not merge in scan - avoiding problems whit bad local map
     // position_ = position_ * motion;
     updateGraph(odometry, Covar::Identity() * 100, pcl, update_time);
+    // next scan is matched from here and must not count this motion again
+    position_cumul_ = position_cumul_ * odometry;
+    last_matcher_pose_ = eigt::getPoseFromTransform(
+        eigt::getTransFromPose(running_window_->getOrigin()) * position_cumul_);
   }
   // unused_trans_.setIdentity();
   return eigt::getPoseFromTransform(position_);
-- 
2.43.0


From 107283be32cd415b12a0cfd74f798fa6145ff044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:50 +0000
Subject: [PATCH 48/55] fix: a scan without distributions was matched as if it
 were the previous one

---
 .../include/ndt_gslam/ndt_slam_algorithm.h    | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
index ede9b0c..6fab7e3 100644
--- a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
+++ b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
@@ -230,16 +230,21 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
   local->setOrigin(running_window_->getOrigin());
   local->initialize(pcl);
   // std::cout << *local << std::endl;
-  inc_matcher_.setInputTarget(running_window_);
-  inc_matcher_.setInputSource(local->getMeans());
-  // inc_matcher_.setInputSource(local);
-  inc_matcher_.align(
-      *pcl_out,
-      eigt::convertFromTransform(position_cumul_ * odometry).cast<float>());
+  bool converged = false;
+  // registration ignores an empty source and would match the previous scan
+  if (!local->getMeans()->empty()) {
+    inc_matcher_.setInputTarget(running_window_);
+    inc_matcher_.setInputSource(local->getMeans());
+    // inc_matcher_.setInputSource(local);
+    inc_matcher_.align(
+        *pcl_out,
+        eigt::convertFromTransform(position_cumul_ * odometry).cast<float>());
+    converged = inc_matcher_.hasConverged();
+  }
   //
   ROS_DEBUG_STREAM("[SLAM ALGORITHM]: incremental scanamtching converged:"
-                   << inc_matcher_.hasConverged());
-  if (inc_matcher_.hasConverged()) {
+                   << converged);
+  if (converged) {
     // prepare transformation from successful scan registration
     Transform registration = eigt::convertToTransform<double>(
         inc_matcher_.getFinalTransformation().cast<double>());
-- 
2.43.0


From 359c2b4b8644c11cfac5d64be925f3997d5e1744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 49/55] fix: scans were traced into the local map from its
 origin instead of the sensor

---
 ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
index 6fab7e3..693248b 100644
--- a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
+++ b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
@@ -368,10 +368,11 @@ void NdtSlamAlgortihm::updateGraph(const Transform &increase,
     // pose graph
 
     position_ = position_ * increase;
-    PointCloud pcl_out;
-    pcl::transformPointCloud(new_scan, pcl_out,
-                             eigt::convertFromTransform(transform_temp_));
-    frame_temp_->mergeInTraced(pcl_out, frame_temp_->getOrigin(), true);
+    // rays start at the place of the sensor, not at the origin of the frame
+    Transform sensor =
+        eigt::getTransFromPose(frame_temp_->getOrigin()) * transform_temp_;
+    frame_temp_->mergeInTraced(new_scan, eigt::getPoseFromTransform(sensor),
+                               true);
   }
 
   // std::cout << "position: " <<
-- 
2.43.0


From 9bbc73733cba2f4411a07acfab6e528fc3e425cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 50/55] fix: an uninitialised transform was published until the
 first estimate

---
 ndt_gslam/src/graph_slam2d_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/src/graph_slam2d_node.cpp b/ndt_gslam/src/graph_slam2d_node.cpp
index 61fb540..ce35099 100644
--- a/ndt_gslam/src/graph_slam2d_node.cpp
+++ b/ndt_gslam/src/graph_slam2d_node.cpp
@@ -12,7 +12,7 @@ GraphSlamNode::GraphSlamNode(ros::NodeHandle &n, ros::NodeHandle &n_private,
   , last_pose_(pose_t::Zero())
   , odom_sync_(OdomSyncPolicy(10))
   , pose_sync_(PoseSyncPolicy(10))
-  // , world_tf_trans_()
+  , world_tf_trans_(tf::Transform::getIdentity())
   , seq_(0)
   , is_ready_(false)
 {
-- 
2.43.0


From 6fec109bbe29a34f75f8ddea7044cba6acf8a9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 51/55] fix: the transform published with the first scan
 ignored the odometry

---
 ndt_gslam/src/graph_slam2d_node.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndt_gslam/src/graph_slam2d_node.cpp b/ndt_gslam/src/graph_slam2d_node.cpp
index ce35099..ff09d91 100644
--- a/ndt_gslam/src/graph_slam2d_node.cpp
+++ b/ndt_gslam/src/graph_slam2d_node.cpp
@@ -232,6 +232,7 @@ void GraphSlamNode::doAlgorithm(const ros::Time &time_stamp, const pose_t &odom,
     last_odom_ = odom;
     last_pose_ = pose_t::Zero();
     algorithm_->update(transform_t::Identity(), covar, *pcl, time_stamp);
+    updateTFTrans(odom, last_pose_);
     publishTF(time_stamp);
     return;
   }
-- 
2.43.0


From 790cde90081c5ac8ad974bc2b24468c29320543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:13 +0000
Subject: [PATCH 52/55] fix: a new 3-D mixture has no best component, not an
 arbitrary one

---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
index b7939fd..1fcf4fa 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
@@ -40,7 +40,7 @@ using namespace std;
 EdgeSE3Mixture::EdgeSE3Mixture() : g2o::EdgeSE3::EdgeSE3()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE3Mixture::~EdgeSE3Mixture()
-- 
2.43.0


From e39073477612a54770ffec24fce0d715eba052d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:13 +0000
Subject: [PATCH 53/55] fix: re-initialised 3-D mixtures use the new
 components' determinants

---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
index 1fcf4fa..ffa0dd1 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
@@ -61,6 +61,7 @@ void EdgeSE3Mixture::initializeComponents(std::vector<g2o::EdgeSE3*>& _edges,
   this->weights = _weights;
   // UpdateBelief(0);
   numberComponents = _edges.size();
+  determinants.clear();
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
-- 
2.43.0


From 65ced9fa7ca3c9258e4ebcdc982af4590f96cbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:13 +0000
Subject: [PATCH 54/55] fix: reading a 3-D mixture rejects truncated records
 and replaces old components

---
 .../src/slam_optimizer/max_mixture/edge_se3_mixture.cpp  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
index ffa0dd1..593ab5b 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
@@ -129,6 +129,9 @@ bool EdgeSE3Mixture::read(std::istream& is)
 {
   is >> numberComponents;
 
+  allEdges.clear();
+  weights.clear();
+  determinants.clear();
   allEdges.reserve(numberComponents);
   weights.reserve(numberComponents);
   determinants.reserve(numberComponents);
@@ -148,6 +151,8 @@ bool EdgeSE3Mixture::read(std::istream& is)
     int na, nb;
     is >> na;
     is >> nb;
+    if (is.fail())
+      return false;
 
     VertexSE3* v0 = static_cast<VertexSE3*>(va->graph()->vertex(na));
     VertexSE3* v1 = static_cast<VertexSE3*>(va->graph()->vertex(nb));
@@ -170,12 +175,14 @@ bool EdgeSE3Mixture::read(std::istream& is)
       }
     allEdges[c]->setInformation(inf);
   }
+  if (is.fail() || numberComponents <= 0)
+    return false;
 
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
   computeBestEdge();
-  return is.good();
+  return true;
 }
 
 bool EdgeSE3Mixture::write(std::ostream& os) const
-- 
2.43.0


From 68789e0a10fb392769190ecab9e605e8c3d4aea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:14 +0000
Subject: [PATCH 55/55] fix: register the 3-D mixture under the tag it can be
 loaded by

---
 ndt_gslam/src/slam_optimizer/max_mixture/types_g2o_mixture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/types_g2o_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/types_g2o_mixture.cpp
index f8029ec..d2ba04c 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/types_g2o_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/types_g2o_mixture.cpp
@@ -46,7 +46,7 @@ void init_types_mixture(void)
 
 G2O_REGISTER_TYPE(EDGE_SE2_MIXTURE, EdgeSE2Mixture);
 G2O_REGISTER_TYPE(EDGE_SE2_XY_MIXTURE, EdgeSE2PointXYMixture);
-G2O_REGISTER_TYPE(EDGE_SE3 : QUAT_MIXTURE, EdgeSE3Mixture);
+G2O_REGISTER_TYPE(EDGE_SE3:QUAT_MIXTURE, EdgeSE3Mixture);
 
 #ifdef G2O_HAVE_OPENGL
 G2O_REGISTER_ACTION(EdgeSE2MixtureDrawAction);
-- 
2.43.0

