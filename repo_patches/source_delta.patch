From 2edccec62b7aab91a0530b5a7dfaf86d562a0edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:09 +0000
Subject: [PATCH 01/56] fix: define the matrix to pose conversions that
 eigen_tools.h declares

eigt::matToVec2d was declared in namespace eigt but defined in the global one,
so every caller failed to link; its definition and its neighbours also repeated
default template arguments, which is ill-formed.
---
 ndt_gslam/include/ndt_gslam/utils/eigen_tools.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h b/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h
index f8259ce..842fc32 100644
--- a/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h
+++ b/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h
@@ -132,7 +132,7 @@ eigt::pose2d_t<T> eigt::transformPose(const pose2d_t<T> &pose,
   return res_pose;
 }
 
-template <typename T = double>
+template <typename T>
 eigt::pose2d_t<T> eigt::transformConcat(const pose2d_t<T> &pose,
                                         const transform2d_t<T> &trans)
 {
@@ -206,7 +206,7 @@ T eigt::normalizeAngle(T angle)
   // return angle - 2 * M_PI *std::floor((angle + M_PI) / (2 * M_PI));
 }
 
-template <typename In, typename Out = In>
+template <typename In, typename Out>
 Eigen::Matrix<Out, 4, 4> eigt::vecToMat3d(const Eigen::Matrix<In, 3, 1> &trans)
 {
   Eigen::Matrix<Out, 4, 4> trans_mat = Eigen::Matrix<Out, 4, 4>::Identity();
@@ -221,7 +221,7 @@ Eigen::Matrix<Out, 4, 4> eigt::vecToMat3d(const Eigen::Matrix<In, 3, 1> &trans)
   return trans_mat;
 }
 
-template <typename In, typename Out = In>
+template <typename In, typename Out>
 Eigen::Matrix<Out, 3, 3> eigt::vecToMat2d(const Eigen::Matrix<In, 3, 1> &trans)
 {
   Eigen::Matrix<Out, 3, 3> trans_mat = Eigen::Matrix<Out, 3, 3>::Identity();
@@ -233,8 +233,8 @@ Eigen::Matrix<Out, 3, 3> eigt::vecToMat2d(const Eigen::Matrix<In, 3, 1> &trans)
   return trans_mat;
 }
 
-template <typename In, typename Out = In>
-Eigen::Matrix<Out, 3, 1> matToVec2d(const Eigen::Matrix<In, 3, 3> &trans)
+template <typename In, typename Out>
+Eigen::Matrix<Out, 3, 1> eigt::matToVec2d(const Eigen::Matrix<In, 3, 3> &trans)
 {
   Eigen::Matrix<Out, 3, 1> vec;
   Eigen::Transform<In, 2, Eigen::Affine, Eigen::ColMajor> trans_mat(trans);
@@ -245,8 +245,8 @@ Eigen::Matrix<Out, 3, 1> matToVec2d(const Eigen::Matrix<In, 3, 3> &trans)
   return vec;
 }
 
-template <typename In, typename Out = In>
-Eigen::Matrix<Out, 3, 1> matToVec2d(const Eigen::Matrix<In, 4, 4> &trans)
+template <typename In, typename Out>
+Eigen::Matrix<Out, 3, 1> eigt::matToVec2d(const Eigen::Matrix<In, 4, 4> &trans)
 {
   Eigen::Matrix<Out, 3, 1> vec;
   Eigen::Transform<In, 3, Eigen::Affine, Eigen::ColMajor> trans_mat(trans);
-- 
2.43.0


From 62ebab4564df12b898e0752f468632e422ac329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 02/56] fix: removeEdge accepted the id one past the last edge

It read and reset a slot outside the edge list and put the id into the pool of
free ids, so a later addEdge wrote there.
---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index c6e1319..b148888 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -99,7 +99,7 @@ typename Graph<P, T>::Id Graph<P, T>::addEdge(E&& edg)
 template <typename P, typename T>
 bool Graph<P, T>::removeEdge(Id edge_id)
 {
-  if (edge_id > edges_.size())
+  if (edge_id >= edges_.size())
     return false;
   if (std::find(id_edge_pool_.begin(), id_edge_pool_.end(), edge_id) !=
       id_edge_pool_.end())
-- 
2.43.0


From dccdedaec9267b4d686439fd7e77f70e8f191469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 03/56] fix: graph iterators stepped on removed edges and read
 past the list

begin iterators pointed at an empty slot when the first edges were removed,
++it looked at the slot behind the last one before it checked for the end, and
it++ returned the advanced position.
---
 .../ndt_gslam/slam_optimizer/pose_graph.h     | 44 +++++++++++--------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index b148888..66027d0 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -260,24 +260,20 @@ public:
   ListIterator(const DataIter& begin, const DataIter& end)
     : current_(begin), end_(end)
   {
+    skipEmpty();
   }
   self_type operator++()
   {
     ++current_;
-    // in case of empty field in list skip this field and go on
-    while (*current_ == nullptr && current_ != end_) {
-      ++current_;
-    }
+    skipEmpty();
     return *this;
   }
   self_type operator++(int)
   {
+    self_type previous = *this;
     ++current_;
-    // in case of empty field in list skip this field and go on
-    while (current_ != end_ && current_->get() == nullptr) {
-      ++current_;
-    }
-    return *this;
+    skipEmpty();
+    return previous;
   }
   reference operator*()
   {
@@ -297,6 +293,14 @@ public:
   }
 
 private:
+  // in case of empty field in list skip this field and go on
+  void skipEmpty()
+  {
+    while (current_ != end_ && current_->get() == nullptr) {
+      ++current_;
+    }
+  }
+
   DataIter current_;
   DataIter end_;
 };
@@ -318,24 +322,20 @@ public:
   ConstListIterator(const DataIter& begin, const DataIter& end)
     : current_(begin), end_(end)
   {
+    skipEmpty();
   }
   self_type operator++()
   {
     ++current_;
-    // in case of empty field in list skip this field and go on
-    while (*current_ == nullptr && current_ != end_) {
-      ++current_;
-    }
+    skipEmpty();
     return *this;
   }
   self_type operator++(int)
   {
+    self_type previous = *this;
     ++current_;
-    // in case of empty field in list skip this field and go on
-    while (current_ != end_ && current_->get() == nullptr) {
-      ++current_;
-    }
-    return *this;
+    skipEmpty();
+    return previous;
   }
   reference operator*()
   {
@@ -355,6 +355,14 @@ public:
   }
 
 private:
+  // in case of empty field in list skip this field and go on
+  void skipEmpty()
+  {
+    while (current_ != end_ && current_->get() == nullptr) {
+      ++current_;
+    }
+  }
+
   DataIter current_;
   DataIter end_;
 };
-- 
2.43.0


From d5daf6ad1c969f37824dae278b99482079289911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 04/56] fix: removeEdge left its nodes pointing at the freed
 edge

Both end nodes kept the deleted edge in their edge lists, and a search over the
graph (loop detection) followed the dangling pointers.
---
 .../ndt_gslam/slam_optimizer/pose_graph.h     | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index 66027d0..44bce22 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -104,6 +104,9 @@ bool Graph<P, T>::removeEdge(Id edge_id)
   if (std::find(id_edge_pool_.begin(), id_edge_pool_.end(), edge_id) !=
       id_edge_pool_.end())
     return false;
+  E* edge = edges_[edge_id].get();
+  nodes_[edge->getFrom()->getId()]->removeEdgeOut(edge);
+  nodes_[edge->getTo()->getId()]->removeEdgeIn(edge);
   id_edge_pool_.push_back(edge_id);
   edges_[edge_id].reset(nullptr);
   return true;
@@ -407,6 +410,8 @@ public:
   void addToPose(const typename P::Pose& pose);
   bool addEdgeOut(Edge<P, T>* e);
   bool addEdgeIn(Edge<P, T>* e);
+  bool removeEdgeOut(Edge<P, T>* e);
+  bool removeEdgeIn(Edge<P, T>* e);
   edge_list_t& getEdgesIn();
   edge_list_t& getEdgesOut();
   //    bool removeEdge(Id id);
@@ -480,6 +485,26 @@ bool Node<P, T>::addEdgeIn(Edge<P, T>* e)
   return false;
 }
 
+template <typename P, typename T>
+bool Node<P, T>::removeEdgeOut(Edge<P, T>* e)
+{
+  auto it = std::find(edges_out_.begin(), edges_out_.end(), e);
+  if (it == edges_out_.end())
+    return false;
+  edges_out_.erase(it);
+  return true;
+}
+
+template <typename P, typename T>
+bool Node<P, T>::removeEdgeIn(Edge<P, T>* e)
+{
+  auto it = std::find(edges_in_.begin(), edges_in_.end(), e);
+  if (it == edges_in_.end())
+    return false;
+  edges_in_.erase(it);
+  return true;
+}
+
 template <typename P, typename T>
 typename Node<P, T>::edge_list_t& Node<P, T>::getEdgesIn()
 {
-- 
2.43.0


From e75f6552160eeb66ff0849b43b3df0d837d4cd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 05/56] fix: printing the nodes of a graph did not compile

The loop copied unique pointers.
---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index 44bce22..e291ad6 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -240,7 +240,7 @@ size_t Graph<P, T>::nodeCount()
 template <typename P, typename T>
 void Graph<P, T>::printNodes(std::ostream& out)
 {
-  for (auto nd : nodes_) {
+  for (auto& nd : nodes_) {
     nd->printNode(out);
   }
 }
-- 
2.43.0


From 609df51df18ce871343a18e7d33ea39a23a7e28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 06/56] fix: VoxelGrid2D::removeCell ended without returning
 its result

Flowing off the end of a function with a result is undefined behaviour; with
optimisation the call crashed.
---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 05de2c7..05494ca 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -382,10 +382,11 @@ bool VoxelGrid2D<CellType>::removeCell(const Point& posistion)
   if (!isInside(posistion))
     return false;
   size_t idx = calcIndex(posistion);
-  if (cells_[idx].get() != nullptr) {
-    --valid_cells_;
-  }
+  if (cells_[idx].get() == nullptr)
+    return false;
   cells_[idx].reset(nullptr);
+  --valid_cells_;
+  return true;
 }
 
 template <typename CellType>
-- 
2.43.0


From 72bbd00f0b45d4ab50f1203acb342cd4a3a20a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 07/56] fix: copying a VoxelGrid2D dereferenced its empty cells

The copied cells were also appended behind as many empty slots, so even a full
grid was copied wrong.
---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 05494ca..acdb3a1 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -309,8 +309,12 @@ VoxelGrid2D<CellType>::VoxelGrid2D(const VoxelGrid2D& other)
   , height_down_(other.height_down_)
   , valid_cells_(other.valid_cells_)
 {
-  cells_.resize(other.cells_.size());
+  cells_.reserve(other.cells_.size());
   for (const std::unique_ptr<CellType>& cell : other.cells_) {
+    if (cell.get() == nullptr) {
+      cells_.emplace_back(nullptr);
+      continue;
+    }
     CellType* new_cell = new CellType;
     *new_cell = *cell;
     cells_.emplace_back(new_cell);
-- 
2.43.0


From ba30c4d9bc93699e91371c3609410831217d9460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 08/56] fix: VoxelGrid2D lost count of its valid cells

clear, translate and rayTrace remove or create cells without updating the
number validCells reports.
---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index acdb3a1..e6d0b77 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -551,6 +551,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
 
   if (cells_[idx_current].get() == nullptr) {
     cells_[idx_current].reset(new CellType());
+    ++valid_cells_;
   }
   res.push_back(cells_[idx_current].get());
   double total_dist = 0;
@@ -560,6 +561,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
     if (idx_current != idx_old) {
       if (cells_[idx_current].get() == nullptr) {
         cells_[idx_current].reset(new CellType());
+        ++valid_cells_;
       }
       res.push_back(cells_[idx_current].get());
       // std::cout << p.transpose() << std::endl;
@@ -600,6 +602,12 @@ void VoxelGrid2D<CellType>::translate(const Eigen::Vector2i& translation,
   moveRight(right);
   moveUp(up);
   moveDown(down);
+  // cells moved over the border of the grid are gone
+  valid_cells_ = 0;
+  for (auto&& cell : cells_) {
+    if (cell.get() != nullptr)
+      ++valid_cells_;
+  }
 }
 
 template <typename CellType>
@@ -608,6 +616,7 @@ void VoxelGrid2D<CellType>::clear()
   for (auto&& cell : cells_) {
     cell.reset(nullptr);
   }
+  valid_cells_ = 0;
 }
 
 template <typename CellType>
-- 
2.43.0


From 975044d85a3a1ccbc55455d88bc0264633d20946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 09/56] fix: VoxelGrid2D::rayTrace ran past the end of rays
 shorter than a cell

The number of steps wrapped around, so the trace went on to the border of the
grid, and with a zero-length ray it indexed the grid with NaN.
---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index e6d0b77..5075755 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -555,7 +555,9 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
   }
   res.push_back(cells_[idx_current].get());
   double total_dist = 0;
-  for (size_t i = 0; i < 2 * static_cast<size_t>(std::floor(length)) - 1; ++i) {
+  // a ray shorter than one cell makes no step
+  size_t steps = 2 * static_cast<size_t>(std::floor(length));
+  for (size_t i = 0; i + 1 < steps; ++i) {
     // total_dist += delta_dist;
     // if program  is still in the same cell like last time just step forward
     if (idx_current != idx_old) {
-- 
2.43.0


From 5e584d009668e0467d728a46764f20435978b0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 10/56] fix: VoxelGrid2D addressed cells outside its storage at
 the grid border

isInside counted the right and lower border in, although their cells are the
next column and row, and the bounds, the growth and the index of a cell were
computed with different roundings. All three now use the cell of the point.
---
 .../include/ndt_gslam/ndt/voxel_grid2d.h      | 41 ++++++++++---------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 5075755..a37c06d 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -266,6 +266,8 @@ private:
   size_t calcIndex(const std::pair<size_t, size_t>& coords) const;
   // <colls, rows> of table
   std::pair<size_t, size_t> calcCoordinates(const Point& pt) const;
+  // <colls, rows> of table, negative or too big for points out of the grid
+  Eigen::Vector2d calcSignedCoordinates(const Point& pt) const;
 
   void enlargeToFit(const Point& pt);
   size_t calcIncLeft(float pt) const;
@@ -396,15 +398,9 @@ bool VoxelGrid2D<CellType>::removeCell(const Point& posistion)
 template <typename CellType>
 bool VoxelGrid2D<CellType>::isInside(const Point& pt) const
 {
-  if (pt(0) >=
-          -static_cast<double>(width_left_) * cell_size_ - cell_size_half_ &&
-      pt(0) <= width_right_ * cell_size_ + cell_size_half_ &&
-      pt(1) >=
-          -static_cast<double>(height_down_) * cell_size_ - cell_size_half_ &&
-      pt(1) <= height_up_ * cell_size_ + cell_size_half_)
-    return true;
-  else
-    return false;
+  Eigen::Vector2d cell = calcSignedCoordinates(pt);
+  return cell(0) >= 0 && cell(0) < static_cast<double>(width()) &&
+         cell(1) >= 0 && cell(1) < static_cast<double>(height());
 }
 
 template <typename CellType>
@@ -660,14 +656,18 @@ template <typename CellType>
 std::pair<size_t, size_t>
 VoxelGrid2D<CellType>::calcCoordinates(const Point& pt) const
 {
-  std::pair<size_t, size_t> coords;
-  float minx = cell_size_ * width_left_;
-  float maxy = cell_size_ * height_up_;
-  coords.first = static_cast<size_t>(
-      std::floor((pt(0) + minx + cell_size_half_) / cell_size_));
-  coords.second = static_cast<size_t>(
-      std::floor((-pt(1) + maxy + cell_size_half_) / cell_size_));
-  return coords;
+  Eigen::Vector2d cell = calcSignedCoordinates(pt);
+  return std::make_pair(static_cast<size_t>(cell(0)),
+                        static_cast<size_t>(cell(1)));
+}
+
+template <typename CellType>
+Eigen::Vector2d
+VoxelGrid2D<CellType>::calcSignedCoordinates(const Point& pt) const
+{
+  return Eigen::Vector2d(
+      std::floor((pt(0) + cell_size_half_) / cell_size_) + width_left_,
+      std::floor((-pt(1) + cell_size_half_) / cell_size_) + height_up_);
 }
 
 template <typename CellType>
@@ -677,8 +677,11 @@ void VoxelGrid2D<CellType>::enlargeToFit(const Point& pt)
   // calculations
   if (isInside(pt))
     return;
-  enlargeGrid(calcIncLeft(pt(0)), calcIncRight(pt(0)), calcIncUp(pt(1)),
-              calcIncDown(pt(1)));
+  Eigen::Vector2d cell = calcSignedCoordinates(pt);
+  enlargeGrid(static_cast<size_t>(std::max(0.0, -cell(0))),
+              static_cast<size_t>(std::max(0.0, cell(0) - width() + 1)),
+              static_cast<size_t>(std::max(0.0, -cell(1))),
+              static_cast<size_t>(std::max(0.0, cell(1) - height() + 1)));
 }
 
 template <typename CellType>
-- 
2.43.0


From 4e6e988fd12711e28f45f5c16835ca67d99428da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 11/56] fix: VoxelGrid2D::getCentroid did not compile

It converted member functions to integers instead of calling them.
---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index a37c06d..1c9511a 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -469,10 +469,10 @@ std::pair<double, double>
 VoxelGrid2D<CellType>::getCentroid(const Point& pt) const
 {
   std::pair<size_t, size_t> coords = calcCoordinates(pt);
-  double x =
-      (static_cast<long>(coords.first) - static_cast<long>(left)) * cell_size_;
-  double y =
-      -(static_cast<long>(coords.second) - static_cast<long>(up)) * cell_size_;
+  double x = (static_cast<long>(coords.first) - static_cast<long>(left())) *
+             cell_size_;
+  double y = -(static_cast<long>(coords.second) - static_cast<long>(up())) *
+             cell_size_;
   return std::pair<double, double>(x, y);
 }
 
-- 
2.43.0


From 4dd8cb773093fc27ad236f4f578a883355c6c8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:05 +0000
Subject: [PATCH 12/56] fix: VoxelGrid2D::rayTrace wrapped into another row at
 the grid border

A ray that meets the right or lower border exactly was still taken to be inside
by the rounded bounds and was continued in a cell on the other side.
---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 1c9511a..559753e 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -519,12 +519,6 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
   Point start_in;
   bool end_indise = false;
   Point delta;
-  double minx =
-      -static_cast<double>(width_left_) * cell_size_ - cell_size_half_;
-  double maxx = width_right_ * cell_size_ + cell_size_half_;
-  double miny =
-      -static_cast<double>(height_down_) * cell_size_ - cell_size_half_;
-  double maxy = height_up_ * cell_size_ + cell_size_half_;
 
   if (!isInside(start)) {
     return res;
@@ -565,7 +559,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
       // std::cout << p.transpose() << std::endl;
     }
     p += delta;
-    if (p(0) >= maxx || p(0) <= minx || p(1) >= maxy || p(1) <= miny)
+    if (!isInside(p))
       return res;
     idx_old = idx_current;
     idx_current = calcIndex(p);
-- 
2.43.0


From 22321a9156a7a66f52b3f8fba2d72cebfcdab132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 13/56] fix: a ray of zero length turned the occupancy of an
 NDT cell into NaN

---
 ndt_gslam/src/ndt/ndt_cell.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ndt_gslam/src/ndt/ndt_cell.cpp b/ndt_gslam/src/ndt/ndt_cell.cpp
index f3294eb..ac0db50 100644
--- a/ndt_gslam/src/ndt/ndt_cell.cpp
+++ b/ndt_gslam/src/ndt/ndt_cell.cpp
@@ -238,6 +238,12 @@ void NDTCell::rescaleCovar()
 double NDTCell::calcMaxLikelihoodOnLine(const Vector &start, const Vector &end,
                                         Vector &pt) const
 {
+  // the only point there is when the line has no direction or no likelihood
+  pt = end;
+  if ((end - start).norm() == 0) {
+    double at_end = (end - mean_).dot(icov_ * (end - mean_));
+    return std::isnan(at_end) ? -1 : std::exp(-at_end / 2);
+  }
   Vector l = (end - start) / (end - start).norm();
   Vector a = icov_ * l;
   Vector b = (end - mean_);
-- 
2.43.0


From a3800b1ed186d928f201a345fd798a864929504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 14/56] fix: scaled occupancy of an NDT cell did not follow its
 documented range

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
index 28ec657..9cdb7db 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
@@ -119,8 +119,8 @@ public:
   {
     if (occup_ >= MAX_OCCUPANCY)
       return 100;
-    if (occup_ < MIN_OCCUPANCY)
-      return 0;
+    if (occup_ < 0)
+      return -1;
     return static_cast<int8_t>(std::floor(occup_ * 100));
   }
   /**
@@ -139,7 +139,7 @@ public:
    */
   void setOccupancy(int8_t occup)
   {
-    occup_ = occup;
+    occup_ = occup < 0 ? MIN_OCCUPANCY : static_cast<float>(occup) / 100;
   }
 
   /**
-- 
2.43.0


From 1010f93afcd8916dcfb664d35ad8ae5cf548ec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 15/56] fix: covarInverse compared the wrong entries and shrank
 every variance

---
 ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h b/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
index 34f3223..5fd50a0 100644
--- a/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
+++ b/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
@@ -31,7 +31,7 @@ bool covarInverse(const Eigen::Matrix<Scalar, 3, 3> &cov,
     double max_eval = evals.maxCoeff();
     // test if every eigenval is big enough
     for (int i = 0; i < evals.cols(); ++i) {
-      if (max_eval > evals(i) * eval_factor) {
+      if (max_eval > evals(i, i) * eval_factor) {
         evals(i, i) = max_eval / eval_factor;
         recalc = true;
       }
-- 
2.43.0


From ec207eee39aea484a24cf30f274d4182d645e5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 16/56] fix: a switch variable kept the value of a step that
 was taken back

---
 .../vertex_switchLinear.h                     |  5 +---
 .../vertex_switchLinear.cpp                   | 25 ++++++++-----------
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
index c8b104d..7263170 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
@@ -32,7 +32,7 @@ public:
 
   double x() const
   {
-    return _x;
+    return _estimate;
   };
 
   //! The gradient at the current estimate is always 1;
@@ -40,9 +40,6 @@ public:
   {
     return 1;
   };
-
-private:
-  double _x;
 };
 
 #endif
diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
index 676c512..83107f1 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
@@ -15,38 +15,35 @@ using namespace std;
 
 bool VertexSwitchLinear::read(std::istream& is)
 {
-  is >> _x;
-  _estimate = _x;
+  double x;
+  is >> x;
+  _estimate = x;
 
   return true;
 }
 
 bool VertexSwitchLinear::write(std::ostream& os) const
 {
-  os << _x;
+  os << _estimate;
   return os.good();
 }
 
 void VertexSwitchLinear::setToOriginImpl()
 {
-  _x = 0;
-  _estimate = _x;
+  _estimate = 0;
 }
 
 void VertexSwitchLinear::setEstimate(const double& et)
 {
-  _x = et;
-  _estimate = _x;
+  _estimate = et;
 }
 
 void VertexSwitchLinear::oplusImpl(const double* update)
 {
-  _x += update[0];
+  _estimate += update[0];
 
-  if (_x < 0)
-    _x = 0;
-  if (_x > 1)
-    _x = 1;
-
-  _estimate = _x;
+  if (_estimate < 0)
+    _estimate = 0;
+  if (_estimate > 1)
+    _estimate = 1;
 }
-- 
2.43.0


From 35be9ad702ce6a9bd9eaf8a774301152545f1c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 17/56] fix: an empty mixture edge left its best component
 uninitialised

---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp   | 2 +-
 .../src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
index 7b65199..9ec47f6 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
@@ -40,7 +40,7 @@ using namespace std;
 EdgeSE2Mixture::EdgeSE2Mixture() : g2o::EdgeSE2::EdgeSE2()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE2Mixture::~EdgeSE2Mixture()
diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
index 36ce3f2..ae03517 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
@@ -41,7 +41,7 @@ EdgeSE2PointXYMixture::EdgeSE2PointXYMixture()
   : g2o::EdgeSE2PointXY::EdgeSE2PointXY()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE2PointXYMixture::~EdgeSE2PointXYMixture()
-- 
2.43.0


From 5d71c31461734b1d709c71a07423af3a47862ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 18/56] fix: reinitialised mixture edges weighed components by
 old determinants

---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp    | 1 +
 .../src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
index 9ec47f6..3f4da83 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
@@ -61,6 +61,7 @@ void EdgeSE2Mixture::initializeComponents(std::vector<g2o::EdgeSE2*>& _edges,
   this->weights = _weights;
 
   numberComponents = _edges.size();
+  determinants.clear();
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
index ae03517..5c71505 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
@@ -62,6 +62,7 @@ void EdgeSE2PointXYMixture::initializeComponents(
   this->weights = _weights;
   // UpdateBelief(0);
   numberComponents = _edges.size();
+  determinants.clear();
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
-- 
2.43.0


From 8b0aa0098432f965bed38fcd84a4ccae3b613248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 19/56] fix: trial value of the line search was a maximizer for
 reversed intervals

---
 .../include/ndt_gslam/registration/ndt_reg_tools.h   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h b/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h
index 8179fe0..d17ae8b 100644
--- a/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h
@@ -155,6 +155,9 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_l) / (a_t - a_l) - g_t - g_l;
     double w = std::sqrt(z * z - g_t * g_l);
+    // the other stationary point is the minimizer when stepping backwards
+    if (a_t < a_l)
+      w = -w;
     // Equation 2.4.56 [Sun, Yuan 2006]
     double a_c = a_l + (a_t - a_l) * (w - g_l - z) / (g_t - g_l + 2 * w);
 
@@ -177,6 +180,9 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_l) / (a_t - a_l) - g_t - g_l;
     double w = std::sqrt(z * z - g_t * g_l);
+    // the other stationary point is the minimizer when stepping backwards
+    if (a_t < a_l)
+      w = -w;
     // Equation 2.4.56 [Sun, Yuan 2006]
     double a_c = a_l + (a_t - a_l) * (w - g_l - z) / (g_t - g_l + 2 * w);
 
@@ -198,6 +204,9 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_l) / (a_t - a_l) - g_t - g_l;
     double w = std::sqrt(z * z - g_t * g_l);
+    // the other stationary point is the minimizer when stepping backwards
+    if (a_t < a_l)
+      w = -w;
     double a_c = a_l + (a_t - a_l) * (w - g_l - z) / (g_t - g_l + 2 * w);
 
     // Calculate the minimizer of the quadratic that interpolates g_l and g_t
@@ -224,6 +233,9 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
     // Equation 2.4.52 [Sun, Yuan 2006]
     double z = 3 * (f_t - f_u) / (a_t - a_u) - g_t - g_u;
     double w = std::sqrt(z * z - g_t * g_u);
+    // the other stationary point is the minimizer when stepping backwards
+    if (a_t < a_u)
+      w = -w;
     // Equation 2.4.56 [Sun, Yuan 2006]
     return (a_u + (a_t - a_u) * (w - g_u - z) / (g_t - g_u + 2 * w));
   }
-- 
2.43.0


From cc38b7b0f204fdc7dcb1e2bde5523304847c28c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:30 +0000
Subject: [PATCH 20/56] fix: incomplete records of switchable constraints were
 read as complete

---
 .../switchable_constraints/edge_se2Switchable.cpp             | 2 +-
 .../switchable_constraints/edge_switchPrior.cpp               | 4 ++--
 .../switchable_constraints/vertex_switchLinear.cpp            | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp
index b0ae7ad..2584e9d 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp
@@ -41,7 +41,7 @@ bool EdgeSE2Switchable::read(std::istream& is)
       if (i != j)
         information()(j, i) = information()(i, j);
     }
-  return true;
+  return !is.fail();
 }
 // ================================================
 bool EdgeSE2Switchable::write(std::ostream& os) const
diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp
index 2d9ac54..408f39c 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp
@@ -9,13 +9,13 @@ bool EdgeSwitchPrior::read(std::istream &is)
   setMeasurement(new_measurement);
 
   is >> information()(0, 0);
-  return true;
+  return !is.fail();
 }
 
 bool EdgeSwitchPrior::write(std::ostream &os) const
 {
   os << measurement() << " " << information()(0, 0);
-  return true;
+  return os.good();
 }
 
 void EdgeSwitchPrior::linearizeOplus()
diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
index 83107f1..0b68662 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
@@ -19,7 +19,7 @@ bool VertexSwitchLinear::read(std::istream& is)
   is >> x;
   _estimate = x;
 
-  return true;
+  return !is.fail();
 }
 
 bool VertexSwitchLinear::write(std::ostream& os) const
-- 
2.43.0


From 1c9fe0f7a397d46b079f99a3a0c3333775855a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:30 +0000
Subject: [PATCH 21/56] fix: reading an incomplete mixture edge crashed

---
 .../src/slam_optimizer/max_mixture/edge_se2_mixture.cpp   | 8 ++++++--
 .../max_mixture/edge_se2_pointxy_mixture.cpp              | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
index 3f4da83..18ce94a 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
@@ -138,6 +138,8 @@ void EdgeSE2Mixture::computeBestEdge()
 bool EdgeSE2Mixture::read(std::istream& is)
 {
   is >> numberComponents;
+  if (is.fail() || numberComponents < 1)
+    return false;
 
   allEdges.reserve(numberComponents);
   weights.reserve(numberComponents);
@@ -161,8 +163,8 @@ bool EdgeSE2Mixture::read(std::istream& is)
 
     VertexSE2* v0 = static_cast<VertexSE2*>(va->graph()->vertex(na));
     VertexSE2* v1 = static_cast<VertexSE2*>(va->graph()->vertex(nb));
-    assert(v0 != NULL);
-    assert(v1 != NULL);
+    if (is.fail() || v0 == NULL || v1 == NULL)
+      return false;
     allEdges[c]->setVertex(0, v0);
     allEdges[c]->setVertex(1, v1);
 
@@ -180,6 +182,8 @@ bool EdgeSE2Mixture::read(std::istream& is)
       }
     allEdges[c]->setInformation(inf);
   }
+  if (is.fail())
+    return false;
 
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
index 5c71505..75150f7 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
@@ -134,6 +134,8 @@ void EdgeSE2PointXYMixture::computeBestEdge()
 bool EdgeSE2PointXYMixture::read(std::istream& is)
 {
   is >> numberComponents;
+  if (is.fail() || numberComponents < 1)
+    return false;
 
   allEdges.reserve(numberComponents);
   weights.reserve(numberComponents);
@@ -159,8 +161,8 @@ bool EdgeSE2PointXYMixture::read(std::istream& is)
 
     VertexSE2* v0 = static_cast<VertexSE2*>(va->graph()->vertex(na));
     VertexPointXY* v1 = static_cast<VertexPointXY*>(va->graph()->vertex(nb));
-    assert(v0 != NULL);
-    assert(v1 != NULL);
+    if (is.fail() || v0 == NULL || v1 == NULL)
+      return false;
     allEdges[c]->setVertex(0, v0);
     allEdges[c]->setVertex(1, v1);
 
@@ -178,6 +180,8 @@ bool EdgeSE2PointXYMixture::read(std::istream& is)
       }
     allEdges[c]->setInformation(inf);
   }
+  if (is.fail())
+    return false;
 
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
-- 
2.43.0


From c5bf361ee4a31e9b730917e41006155301003f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:45 +0000
Subject: [PATCH 22/56] fix: an NDT grid constructed with an origin had no
 cloud of means

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 5db1e57..7178a67 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -457,6 +457,8 @@ NDTGrid2D<CellType, PointType>::NDTGrid2D(const Eigen::Vector3d &origin,
   , initialized_(false)
   , timestamp_(timestamp)
   , grid_()
+  , kdtree_()
+  , means_(new PointCloud())
 {
   grid_.setCellSize(cell_size_);
 }
-- 
2.43.0


From e61091b352e6dd270c974eeae741385b0a26d19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:45 +0000
Subject: [PATCH 23/56] fix: merging into an NDT grid that may grow replaced
 cells instead of merging them

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 7178a67..272abcd 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -505,7 +505,7 @@ void NDTGrid2D<CellType, PointType>::mergeIn(const std::vector<CellType> &cells,
     grid_.enlarge(minx, miny, maxx, maxy);
     for (auto &&cell : cells) {
       if (cell.hasGaussian()) {
-        grid_.addCell(cell.getMean().head(2), cell, false);
+        grid_.addCell(cell.getMean().head(2), cell);
       }
     }
   } else {
-- 
2.43.0


From fb32c8482b16cd42f5f16cb1e938f56e9aa1b41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:45 +0000
Subject: [PATCH 24/56] fix: a cleared NDT grid kept the means of its old cells

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 272abcd..5d8d4a8 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -395,6 +395,8 @@ public:
   {
     grid_.clear();
     initialized_ = false;
+    updateMeansCloud();
+    updateKDTree();
   }
 
   /**
@@ -965,6 +967,8 @@ NDTGrid2D<CellType, PointType>::getKNearestNeighborsKDTree(
     const Eigen::Vector2d &pt, size_t K) const
 {
   CellPtrVector res;
+  if (means_->empty())
+    return res;
   res.reserve(K);
   PointType point;
   point.x = pt(0);
-- 
2.43.0


From 07e9d955f5a297c68bd2021c9c2ab88ed33ec147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:45 +0000
Subject: [PATCH 25/56] fix: serialized NDT grids had a wrong origin

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 5d8d4a8..dc9d73a 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -864,11 +864,12 @@ template <typename CellType, typename PointType>
 NDTGridMsg NDTGrid2D<CellType, PointType>::serialize() const
 {
   NDTGridMsg msg;
-  Eigen::Vector2d corner_origin(-grid_.left() * cell_size_,
+  Eigen::Vector2d corner_origin(-static_cast<double>(grid_.left()) * cell_size_,
                                 grid_.up() * cell_size_);
   eigt::transform2d_t<double> trans =
       eigt::transBtwFrames(origin_, Eigen::Vector3d(0, 0, 0));
   msg.origin_.head(2) = trans * corner_origin;
+  msg.origin_(2) = origin_(2);
   msg.size_ << grid_.width() * cell_size_, grid_.height() * cell_size_, 0;
   msg.cell_sizes_ << cell_size_, cell_size_, 0;
   for (auto &&cell : grid_.getValidCellsPtr()) {
-- 
2.43.0


From 58b902314f07058344a6818eb6f5fc09d21b86a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:45 +0000
Subject: [PATCH 26/56] fix: reading a cell of a constant NDT grid did not
 compile

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index dc9d73a..b92b916 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -689,14 +689,14 @@ operator[](const PointType &pt) const
 {
   typename DataGrid::Point point;
   point << pt.x, pt.y;
-  return grid_[point];
+  return *grid_.getCellPtr(point);
 }
 
 template <typename CellType, typename PointType>
 const CellType &NDTGrid2D<CellType, PointType>::
 operator[](const Eigen::Vector2d &pt) const
 {
-  return grid_[pt];
+  return *grid_.getCellPtr(pt);
 }
 
 template <typename CellType, typename PointType>
-- 
2.43.0


From 1369d19122130a0f22ee683a204dda26c8e7d6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:45 +0000
Subject: [PATCH 27/56] fix: coarser NDT grids lost their origin

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index b92b916..c30699e 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -750,6 +750,8 @@ NDTGrid2D<CellType, PointType>::createCoarserGrid(float cell_size) const
 
   SelfType coarse_grid;
   coarse_grid.setCellSize(cell_size);
+  coarse_grid.setOrigin(origin_);
+  coarse_grid.setTimestamp(timestamp_);
   auto cells = grid_.getValidCells();
   coarse_grid.mergeIn(cells, true);
   return coarse_grid;
-- 
2.43.0


From 25c7252703438018466fff978e138af2b0c2d082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:45 +0000
Subject: [PATCH 28/56] fix: nearest cells of an NDT grid were looked up by
 rounded positions

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index c30699e..27e5f99 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -418,6 +418,8 @@ protected:
   DataGrid grid_;
   pcl::KdTreeFLANN<PointType> kdtree_;
   typename PointCloud::Ptr means_;
+  // exact positions of means_, used to find the cell of each mean
+  std::vector<typename DataGrid::Point> means_exact_;
 
   void mergeIn(std::vector<CellType> &&cells, bool resize);
   void addPoint(const PointType &pt);
@@ -981,8 +983,7 @@ NDTGrid2D<CellType, PointType>::getKNearestNeighborsKDTree(
   std::vector<float> distances;
   kdtree_.nearestKSearch(point, K, res_indexes, distances);
   for (int id : res_indexes) {
-    PointType near_pt = means_->at(id);
-    res.push_back(grid_.getCellPtr(Eigen::Vector2d(near_pt.x, near_pt.y)));
+    res.push_back(grid_.getCellPtr(means_exact_.at(id)));
   }
   return res;
 }
@@ -991,6 +992,7 @@ template <typename CellType, typename PointType>
 void NDTGrid2D<CellType, PointType>::updateMeansCloud()
 {
   typename PointCloud::Ptr pcl(new PointCloud());
+  means_exact_.clear();
   for (auto &&cell : getGaussianCells()) {
     PointType pt;
     Eigen::Vector3d mean = cell->getMean();
@@ -998,6 +1000,7 @@ void NDTGrid2D<CellType, PointType>::updateMeansCloud()
     pt.y = mean(1);
     pt.z = mean(2);
     pcl->push_back(pt);
+    means_exact_.push_back(mean.head(2));
   }
   means_ = pcl;
 }
-- 
2.43.0


From 501f9f77d402bf599a2927f2004479257fa88b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:45 +0000
Subject: [PATCH 29/56] fix: IScanmatcher2d declared a method nobody defines

---
 .../include/ndt_gslam/slam_optimizer/graph_slam_interfaces.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/graph_slam_interfaces.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/graph_slam_interfaces.h
index d2ea79d..e2cf58a 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/graph_slam_interfaces.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/graph_slam_interfaces.h
@@ -241,7 +241,7 @@ public:
    *
    * @param[in]  score  The score
    */
-  virtual void setScoreThreshold(float score);
+  virtual void setScoreThreshold(float score) = 0;
 };
 
 }  // slamuk namespace
-- 
2.43.0


From fabe8433a3bbd65f3fe0c2bc24ad9b47669d4483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:04 +0000
Subject: [PATCH 30/56] fix: Hessian of the NDT score used the second
 derivative of the wrong entries

The second derivative of a transformed point is non-zero only by the angle
twice (eq. 6.21 [Magnusson 2009]); the code applied it to every other entry.
---
 ndt_gslam/include/ndt_gslam/registration/ndt2d.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/ndt2d.h b/ndt_gslam/include/ndt_gslam/registration/ndt2d.h
index 60b803a..118f800 100644
--- a/ndt_gslam/include/ndt_gslam/registration/ndt2d.h
+++ b/ndt_gslam/include/ndt_gslam/registration/ndt2d.h
@@ -538,10 +538,11 @@ ndt_reg::ScoreAndDerivatives<3, double> NormalDistributionsTransform2DEx<
     res.gradient_(i) = diff_icov.dot(jacobian.col(i)) * d1d2_e_x_cov_x;
     for (long j = 0; j < 3; ++j) {
       // calculate hessian (eq. 6.13) [Magnusson 2009]
+      // only the second derivative by the angle is not zero
       if (i == 2 && j == 2) {
-        hess_part = hess_derivatives2;
-      } else {
         hess_part = hess_derivative;
+      } else {
+        hess_part = hess_derivatives2;
       }
       double jacc_i = diff_icov.dot(jacobian.col(i));
       double jacc_j = diff_icov.dot(jacobian.col(j));
-- 
2.43.0


From b0cb308a905719478b4a36857393e0dfbd438ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:04 +0000
Subject: [PATCH 31/56] fix: gradient of the D2D score ignored that parameters
 are added up

The pose is updated by adding the step to (x, y, angle), so the derivative by
the angle depends on the rotated mean alone. The translated mean was used,
which is right only while the translation is zero.
---
 ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h
index 7a86082..659cbf8 100644
--- a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h
+++ b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d.h
@@ -555,8 +555,9 @@ D2DNormalDistributionsTransform2D<PointSource, PointTarget, CellType>::calcScore
           trans_mat.rotation() * cell_cov * trans_mat.rotation().transpose();
       // compute derivatives of score function
       ndt_reg::JacobianHessianDerivatives partial_derivatives;
-      computeDerivatives(mean_source, cov_source, partial_derivatives,
-                         calc_hessian);
+      // the angle turns the mean about the origin, before it is translated
+      computeDerivatives(mean_source - trans_mat.translation(), cov_source,
+                         partial_derivatives, calc_hessian);
       TargetVec neighbors =
           targetNDT.getKNearestNeighbors(mean_source.head(2), 2);
       // std::cout << "neighbors: " << neighbors.size() << std::endl;
-- 
2.43.0


From 433c67e92d6c1a00f4ce9086e46de24a759e9d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:32 +0000
Subject: [PATCH 32/56] fix: indexes into the lookup table ignored its border

toIndexes() left out the border that getCellIdx() adds, so scores of indexes
were those of points shifted by the border in both axes.
---
 .../ndt_gslam/registration/correlative_estimation_tools.h   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
index 9d5a5c9..79150f0 100644
--- a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
@@ -331,9 +331,11 @@ LookUpTable<PointType>::toIndexes(const pcl::PointCloud<PointType> &pcl) const
   for (size_t i = 0; i < pcl.points.size(); ++i) {
     IndexPoint pt;
     pt.x_idx_ = static_cast<int>(
-        std::floor((pcl.points[i].x - minx_ + cell_size_half_) / cell_size_));
+        std::floor((pcl.points[i].x - minx_ + cell_size_half_) / cell_size_) +
+        border_size_);
     pt.y_idx_ = static_cast<int>(
-        std::floor((-pcl.points[i].y + maxy_ + cell_size_half_) / cell_size_));
+        std::floor((-pcl.points[i].y + maxy_ + cell_size_half_) / cell_size_) +
+        border_size_);
     indexes.push_back(pt);
   }
   return indexes;
-- 
2.43.0


From 2f40b3c9d52483ab2e668243ddff68c8ff14ee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:32 +0000
Subject: [PATCH 33/56] fix: the lookup table dropped the outermost points of
 its target

Points with the smallest or largest coordinate were neither entered nor scored.
A straight wall along an axis at the edge of the scan was lost as a whole.
---
 .../ndt_gslam/registration/correlative_estimation_tools.h   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
index 79150f0..5d73b4e 100644
--- a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
@@ -384,8 +384,8 @@ void LookUpTable<PointType>::initGridWindowFce(
   // every point is projected to certain cell. If is cell in the grid we set
   // this cell OCCUPIED
   for (size_t i = 0; i < target.size(); ++i) {
-    if (target[i].x < maxx_ && target[i].y < maxy_ && target[i].x > minx_ &&
-        target[i].y > miny_) {
+    if (target[i].x <= maxx_ && target[i].y <= maxy_ && target[i].x >= minx_ &&
+        target[i].y >= miny_) {
       Eigen::Vector2f pt(target[i].x, target[i].y);
       size_t idx = getCellIdx(pt);
       table_[idx] = OCCUPIED_CELL;
@@ -438,7 +438,7 @@ void LookUpTable<PointType>::applyKernel(size_t row, size_t col)
 template <typename PointType>
 float LookUpTable<PointType>::getPtScore(const Eigen::Vector2f &pt) const
 {
-  if (pt(0) < maxx_ && pt(1) < maxy_ && pt(0) > minx_ && pt(1) > miny_) {
+  if (pt(0) <= maxx_ && pt(1) <= maxy_ && pt(0) >= minx_ && pt(1) >= miny_) {
     return table_[getCellIdx(pt)];
   }
   return 0;
-- 
2.43.0


From 8ef87c871703f1a9cf2d5bc650fc1bed05c34b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:32 +0000
Subject: [PATCH 34/56] fix: the score against an empty target was not a number

And before initGrid() it depended on an uninitialised count.
---
 .../ndt_gslam/registration/correlative_estimation_tools.h    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
index 5d73b4e..67f992c 100644
--- a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
@@ -154,6 +154,7 @@ public:
     , cell_count_row_(0)
     , cell_count_col_(0)
     , border_size_(0)
+    , target_points_(0)
   {
   }
   /**
@@ -282,7 +283,7 @@ LookUpTable<PointType>::getScore(const pcl::PointCloud<PointType> &pcl) const
       ++valid_pts;
     res += temp;
   }
-  if (pcl.size() == 0)
+  if (pcl.size() == 0 || target_points_ == 0)
     return 0;
   return res / (OCCUPIED_CELL * target_points_);
 }
@@ -304,7 +305,7 @@ double LookUpTable<PointType>::getScore(const std::vector<IndexPoint> &pcl) cons
     //  ++valid_pts;
     // res += temp;
   }
-  if (pcl.size() == 0)
+  if (pcl.size() == 0 || target_points_ == 0)
     return 0;
   // ROS_DEBUG_STREAM("valid points: "<<valid_pts <<" score: "<<res <<"
   // (pts*score)/100 "<<res*valid_pts / 100);
-- 
2.43.0


From 7d38ffec436d7c6b5733f2c99caae13abb8dd148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:32 +0000
Subject: [PATCH 35/56] fix: smoothing of the lookup table spread from smoothed
 cells

With a wide kernel the neighbours of a point are smoothed up to the value of an
occupied cell; they were then taken for points and smoothed again, up to writing
outside of the table.
---
 .../registration/correlative_estimation_tools.h  | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
index 67f992c..2422183 100644
--- a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation_tools.h
@@ -393,13 +393,15 @@ void LookUpTable<PointType>::initGridWindowFce(
     }
   }
 
-  // apply smoothing kernel
-  for (size_t row = 1; row < cell_count_col_ - 1; ++row) {
-    for (size_t col = 1; col < cell_count_row_ - 1; ++col) {
-      size_t idx = getCellIdx(row, col);
-      if (table_[idx] == OCCUPIED_CELL)
-        applyKernel(row, col);
-    }
+  // apply smoothing kernel to the cells with a point. Collected first because a
+  // wide kernel marks more cells as OCCUPIED
+  std::vector<size_t> occupied;
+  for (size_t idx = 0; idx < table_.size(); ++idx) {
+    if (table_[idx] == OCCUPIED_CELL)
+      occupied.push_back(idx);
+  }
+  for (size_t idx : occupied) {
+    applyKernel(idx / cell_count_row_, idx % cell_count_row_);
   }
 }
 
-- 
2.43.0


From cca7ef8a6429f25ced585561c9fc256cd5ad284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:32 +0000
Subject: [PATCH 36/56] fix: correlative estimation lost its initial guess

The search moves the cloud already transformed by the guess, so the result is
the found motion after the guess. The output cloud was wrong for the same
reason.
---
 .../include/ndt_gslam/registration/correlative_estimation2d.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h
index 4d30c9b..f14b3d0 100644
--- a/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h
+++ b/ndt_gslam/include/ndt_gslam/registration/correlative_estimation2d.h
@@ -252,7 +252,7 @@ void CorrelativeEstimation<PointSource, PointTarget>::computeTransformation(
 
   // output data
   converged_ = true;
-  final_transformation_ = vecToMat(best_trans);  // * guess;
+  final_transformation_ = vecToMat(best_trans) * guess;
   transformPointCloud(*input_, output, final_transformation_);
 }
 
-- 
2.43.0


From 8f9fae604d4a1afb6d709181344afa4b9d93793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:32 +0000
Subject: [PATCH 37/56] fix: robust matching accepted matches below its
 rejection limit

With a limit above 0.6 a first match below it was reported as converged, and
with one above 0.7 the reported transformation was an uninitialised one.
---
 ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
index 6d189d5..f980e76 100644
--- a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
+++ b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
@@ -331,11 +331,10 @@ void D2DNormalDistributionsTransform2DRobust<
   // standard D2D match try for good guess estimations
   d2d_.align(output, guess);
   double score = proofTransform(d2d_.getFinalTransformation());
-  Eigen::Matrix4f first_trans;
+  Eigen::Matrix4f first_trans = d2d_.getFinalTransformation();
   // test if first d2d has return bad result
   if (!(d2d_.hasConverged() && score > 0.7)) {
     // bad result -> robust alignment needed
-    first_trans = d2d_.getFinalTransformation();
     corr_est_.align(output, guess);
     if (!corr_est_.hasConverged()) {
       converged_ = false;
@@ -360,7 +359,7 @@ void D2DNormalDistributionsTransform2DRobust<
   // robust alignment still not good enough
   if (score2 < rejection_limit_) {
     // Maybe at least first d2d got some reasonable result
-    if (score > 0.6) {
+    if (score > 0.6 && score >= rejection_limit_) {
       converged_ = true;
       final_transformation_ = first_trans;
     } else {
-- 
2.43.0


From ccf8a4e0af7c1580cefcd8ef6aad85637615805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:32 +0000
Subject: [PATCH 38/56] fix: reading the outlier ratio of the robust matcher
 did not compile

---
 ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
index f980e76..c5302c7 100644
--- a/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
+++ b/ndt_gslam/include/ndt_gslam/registration/d2d_ndt2d_robust.h
@@ -188,7 +188,7 @@ public:
    */
   double getOutlierRatio() const
   {
-    return d2d_.getOutlierRatio();
+    return d2d_.getOulierRatio();
   }
 
   /**
-- 
2.43.0


From b5bdc4bd7c4848a468ef19650665ffd9da530592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 39/56] fix: centroid and radius of an NDT grid were off by
 factors

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
index 27e5f99..c23faa5 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_grid2d.h
@@ -374,7 +374,7 @@ public:
    */
   double getRadius() const
   {
-    return grid_.width() * cell_size_ + grid_.height() * cell_size_ / 4;
+    return (grid_.width() * cell_size_ + grid_.height() * cell_size_) / 4;
   }
   /**
    * @brief      Gets the centroid of the grid.
@@ -385,7 +385,7 @@ public:
   {
     double x = grid_.right() * cell_size_ - grid_.left() * cell_size_;
     double y = (grid_.up() * cell_size_ - grid_.down() * cell_size_);
-    return Eigen::Vector2d(x, y);
+    return Eigen::Vector2d(x, y) / 2;
   }
 
   /**
-- 
2.43.0


From 7605532a6f9bf05b9735aea7c8dd4b81d5508bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 40/56] fix: removing, moving and combining frames of a map did
 not compile

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
index 3f909b2..c9ec261 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_mapper.h
@@ -8,6 +8,7 @@
 #include <pcl/point_cloud.h>
 #include <ros/ros.h>
 #include <Eigen/Dense>
+#include <algorithm>
 #include <map>
 #include <memory>
 
@@ -110,7 +111,8 @@ private:
   FrameStorage grids_;
   typename Pcl::Ptr means_;
   // return id of frame if found. Otherwise exception
-  typename FrameStorage::iterator getFrameIterator(const NDTGrid2DPtr &frame);
+  typename FrameStorage::iterator
+  getFrameIterator(const NDTGrid2DConstPtr &frame);
   void addToMap(const Grid &frame);
 };
 
@@ -164,7 +166,7 @@ template <typename CellType, typename PointType>
 void NDTMapper<CellType, PointType>::updateFrame(const NDTGrid2DPtr &frame,
                                                  const Pose &pose)
 {
-  getFrameIterator(frame)->setOrigin(pose);
+  (*getFrameIterator(frame))->setOrigin(pose);
 }
 
 template <typename CellType, typename PointType>
@@ -172,11 +174,12 @@ typename NDTMapper<CellType, PointType>::NDTGrid2DPtr
 NDTMapper<CellType, PointType>::combineFrames(const NDTGrid2DPtr &a,
                                               const NDTGrid2DPtr &b)
 {
-  Grid *frame_a = getFrameIterator(a)->get();
-  Grid *frame_b = getFrameIterator(b)->get();
+  NDTGrid2DPtr frame_a = *getFrameIterator(a);
+  NDTGrid2DPtr frame_b = *getFrameIterator(b);
   frame_a->mergeInTraced(*frame_b, true, true);
   frame_a->setTimestamp(frame_b->getTimestamp());
   removeFrame(frame_b);
+  return frame_a;
 }
 
 template <typename CellType, typename PointType>
@@ -219,9 +222,9 @@ NDTMapper<CellType, PointType>::calcOccupancyGridMsg() const
 
 template <typename CellType, typename PointType>
 typename NDTMapper<CellType, PointType>::FrameStorage::iterator
-NDTMapper<CellType, PointType>::getFrameIterator(const NDTGrid2DPtr &frame)
+NDTMapper<CellType, PointType>::getFrameIterator(const NDTGrid2DConstPtr &frame)
 {
-  auto iter = grids_.find(frame);
+  auto iter = std::find(grids_.begin(), grids_.end(), frame);
   if (iter == grids_.end())
     throw std::invalid_argument("Id of frame doesn't exist");
   return iter;
-- 
2.43.0


From ff7fcab70fd1eeba7c6a107e72d8ca04f17082bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 41/56] fix: loop search started from uninitialised covariance
 and distance

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
index 3917b2a..7cd4ca5 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
@@ -32,8 +32,10 @@ struct EdgeCov {
   }
   explicit EdgeCov(size_t start_id)
     : start_id_(start_id)
-    , cov_()
+    , node_id_(start_id)
+    , cov_(Covar::Zero())
     , t_(Transform::Identity())
+    , distance_(0)
     , hop_(0)
     , det_cov_(0)
   {
-- 
2.43.0


From f4db2b03a3d7e2f6083a7c9ff5cab3beef6a52fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 42/56] fix: loop search read an empty queue and visited nodes
 repeatedly

---
 .../include/ndt_gslam/slam_optimizer/loop_detector.h      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
index 7cd4ca5..70ff619 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
@@ -234,8 +234,14 @@ std::vector<LoopClosure<P>> LoopDetector<P, T>::genLoopClosures(Id node_id)
   }
   size_t depth = 0;
   // repeat while some nodes are unvisited
-  while (graph_->nodeCount() > nodes_visited && depth < max_search_depth_) {
+  while (!fringe.empty() && graph_->nodeCount() > nodes_visited &&
+         depth < max_search_depth_) {
     size_t curr_node_id = fringe.top().node_id_;
+    // node might have been already reached by other path
+    if (graph_->getNode(curr_node_id).isVisited()) {
+      fringe.pop();
+      continue;
+    }
     std::cout << "node: " << curr_node_id << std::endl;
     Node &target_n = graph_->getNode(node_id);
     Node &source_n = graph_->getNode(curr_node_id);
-- 
2.43.0


From 9a19540d872f0e4f5f935db9f54673cf04c02395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 43/56] fix: loop search expanded the most uncertain path first

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
index 70ff619..b750aac 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
@@ -86,7 +86,8 @@ private:
 struct EdgeCovComparer {
   bool operator()(const EdgeCov &a, const EdgeCov &b)
   {
-    return a < b;
+    // top of the priority queue is the edge with the smallest covariance
+    return b < a;
   }
 };
 
-- 
2.43.0


From e4d8676aef551bd02019dc81d2caee59243daabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 44/56] fix: cumulative transform of a loop path was chained in
 reverse

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
index b750aac..6d672b3 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/loop_detector.h
@@ -59,7 +59,7 @@ struct EdgeCov {
             computeJacc1(co, si, new_e.t_.translation()).transpose() +
         computeJacc2(co, si) * new_e.cov_ * computeJacc2(co, si).transpose();
     e.det_cov_ = e.cov_.determinant();
-    e.t_ = new_e.t_ * this->t_;
+    e.t_ = this->t_ * new_e.t_;
     e.distance_ = this->distance_ + new_e.distance_;
     return e;
   }
-- 
2.43.0


From d0d143c5e4778edcd3e81fe5e1af3cf418d6b5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 45/56] fix: total error of the pose graph was always zero

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h
index 36a3c38..f45bc0d 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h
@@ -181,7 +181,12 @@ bool Slam2D<T>::optimalizeIterationaly()
 template <typename T>
 double Slam2D<T>::calcTotalGraphError() const
 {
-  return 0;
+  double error = 0;
+  for (auto it = graph_.cbeginEdge(); it != graph_.cendEdge(); ++it) {
+    typename Policy::ErrorVector err = it->getError();
+    error += err.dot(it->getInformationMatrix() * err);
+  }
+  return error;
 }
 
 template <typename T>
-- 
2.43.0


From 70190d25b74c9eb2442ec3d0dec401bdc080a140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 46/56] fix: limit of optimiser iterations had no effect

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h
index f45bc0d..40f706e 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h
@@ -55,7 +55,7 @@ class Slam2D : public IGraphOptimalizer2d<T>
 public:
   explicit Slam2D(std::unique_ptr<IScanmatcher2d<T>> &&matcher)
     : epsilon_(0.001)
-    , iterations_(5)
+    , iterations_(10)
     , last_node_id_(0)
     , prevlast_node_id_(0)
     , first_node_id_(0)
@@ -77,7 +77,6 @@ public:
     g2o::SparseOptimizerTerminateAction *terminateAction =
         new g2o::SparseOptimizerTerminateAction;
     terminateAction->setGainThreshold(1e-6);
-    terminateAction->setMaxIterations(10);
     g2o_opt_->addPostIterationAction(terminateAction);
   }
 
@@ -163,7 +162,7 @@ bool Slam2D<T>::optimalize()
   g2o::EstimatePropagatorCostOdometry costFunction(g2o_opt_.get());
   g2o_opt_->computeInitialGuess(costFunction);
   // g2o_opt_->computeActiveErrors();
-  g2o_opt_->optimize(10);
+  g2o_opt_->optimize(static_cast<int>(iterations_));
 
   g2o_opt_->computeActiveErrors();
   ROS_INFO_STREAM("[SLAM2D]: optimalization done: " << g2o_opt_->chi2());
-- 
2.43.0


From 8edc2f1ac0d9df6d7822868d56ee9f3130bc6b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 47/56] fix: destroying the optimizer freed its solvers twice

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h
index 40f706e..d77dccf 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/slam2d.h
@@ -83,6 +83,10 @@ public:
   ~Slam2D()
   {
     std::cout << "destructing Slam2d" << std::endl;
+    // optimizer owns the algorithm, which owns its solvers
+    solver_gauss_.release();
+    block_solver_.release();
+    linear_solver_.release();
   }
 
   // return true if optimalization changed poses in graph
-- 
2.43.0


From be3b8a41e27b58245af238bde176536cf244d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 48/56] fix: odometry collected over small motions was lost

---
 ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
index 9063d5c..341a99d 100644
--- a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
+++ b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
@@ -219,8 +219,10 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
   }
   unused_trans_ = unused_trans_ * motion;
   if (!movedEnough(unused_trans_)) {
-    return eigt::getPoseFromTransform(position_ * motion);
+    return eigt::getPoseFromTransform(position_ * unused_trans_);
   }
+  // all odometry since the last used scan
+  const Transform motion_used = unused_trans_;
   unused_trans_.setIdentity();
   FrameTypePtr local = FrameTypePtr(new FrameType());
   PointCloud::Ptr pcl_out(new PointCloud());
@@ -233,7 +235,7 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
   // inc_matcher_.setInputSource(local);
   inc_matcher_.align(
       *pcl_out,
-      eigt::convertFromTransform(position_cumul_ * motion).cast<float>());
+      eigt::convertFromTransform(position_cumul_ * motion_used).cast<float>());
   //
   ROS_DEBUG_STREAM("[SLAM ALGORITHM]: incremental scanamtching converged:"
                    << inc_matcher_.hasConverged());
@@ -285,7 +287,7 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
     // scan-matching failed, use odometry
     // do not merge in scan - avoiding problems whit bad local map
     // position_ = position_ * motion;
-    updateGraph(motion, Covar::Identity() * 100, pcl, update_time);
+    updateGraph(motion_used, Covar::Identity() * 100, pcl, update_time);
   }
   // unused_trans_.setIdentity();
   return eigt::getPoseFromTransform(position_);
-- 
2.43.0


From d4e2944661b08f4328718b76d4e726776fcde2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 49/56] fix: motion of a failed registration was counted twice

---
 ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
index 341a99d..80d8f0c 100644
--- a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
+++ b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
@@ -287,6 +287,10 @@ NdtSlamAlgortihm::Pose NdtSlamAlgortihm::update(const Transform &motion,
     // scan-matching failed, use odometry
     // do not merge in scan - avoiding problems whit bad local map
     // position_ = position_ * motion;
+    // next registration starts from here and must not count this motion again
+    position_cumul_ = position_cumul_ * motion_used;
+    last_matcher_pose_ = eigt::getPoseFromTransform(
+        eigt::getTransFromPose(last_matcher_pose_) * motion_used);
     updateGraph(motion_used, Covar::Identity() * 100, pcl, update_time);
   }
   // unused_trans_.setIdentity();
-- 
2.43.0


From 800dff79068e2300b58d11a0aad97de3d8705556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 50/56] fix: free space of a frame was traced from its origin
 instead of the robot

---
 ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
index 80d8f0c..1cb974b 100644
--- a/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
+++ b/ndt_gslam/include/ndt_gslam/ndt_slam_algorithm.h
@@ -363,10 +363,11 @@ void NdtSlamAlgortihm::updateGraph(const Transform &increase,
     // pose graph
 
     position_ = position_ * increase;
-    PointCloud pcl_out;
-    pcl::transformPointCloud(new_scan, pcl_out,
-                             eigt::convertFromTransform(transform_temp_));
-    frame_temp_->mergeInTraced(pcl_out, frame_temp_->getOrigin(), true);
+    // scan was taken from the current position of the robot in this frame
+    Transform scan_origin =
+        eigt::getTransFromPose(frame_temp_->getOrigin()) * transform_temp_;
+    frame_temp_->mergeInTraced(
+        new_scan, eigt::getPoseFromTransform(scan_origin), true);
   }
 
   // std::cout << "position: " <<
-- 
2.43.0


From 683f8c647f6cdc075d39999c4d9fcdaa268df4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 51/56] fix: transform broadcast before the second scan was
 uninitialised

---
 ndt_gslam/src/graph_slam2d_node.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/src/graph_slam2d_node.cpp b/ndt_gslam/src/graph_slam2d_node.cpp
index 61fb540..e77eff5 100644
--- a/ndt_gslam/src/graph_slam2d_node.cpp
+++ b/ndt_gslam/src/graph_slam2d_node.cpp
@@ -12,7 +12,7 @@ GraphSlamNode::GraphSlamNode(ros::NodeHandle &n, ros::NodeHandle &n_private,
   , last_pose_(pose_t::Zero())
   , odom_sync_(OdomSyncPolicy(10))
   , pose_sync_(PoseSyncPolicy(10))
-  // , world_tf_trans_()
+  , world_tf_trans_(tf::Transform::getIdentity())
   , seq_(0)
   , is_ready_(false)
 {
@@ -230,8 +230,9 @@ void GraphSlamNode::doAlgorithm(const ros::Time &time_stamp, const pose_t &odom,
   if (!is_ready_) {
     is_ready_ = true;
     last_odom_ = odom;
-    last_pose_ = pose_t::Zero();
-    algorithm_->update(transform_t::Identity(), covar, *pcl, time_stamp);
+    last_pose_ =
+        algorithm_->update(transform_t::Identity(), covar, *pcl, time_stamp);
+    updateTFTrans(odom, last_pose_);
     publishTF(time_stamp);
     return;
   }
-- 
2.43.0


From 5178f6a4fd26d260dff40f9554b09c39af0f6083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 52/56] fix: an empty mixture edge in space left its best
 component uninitialised

---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
index b7939fd..1fcf4fa 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
@@ -40,7 +40,7 @@ using namespace std;
 EdgeSE3Mixture::EdgeSE3Mixture() : g2o::EdgeSE3::EdgeSE3()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE3Mixture::~EdgeSE3Mixture()
-- 
2.43.0


From 4fd869bd8604b0cb883af65d13d29cd926c5cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 53/56] fix: reinitialised mixture edges in space weighed
 components by old determinants

---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
index 1fcf4fa..ffa0dd1 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
@@ -61,6 +61,7 @@ void EdgeSE3Mixture::initializeComponents(std::vector<g2o::EdgeSE3*>& _edges,
   this->weights = _weights;
   // UpdateBelief(0);
   numberComponents = _edges.size();
+  determinants.clear();
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
-- 
2.43.0


From a95b950a6d3fc9200b093802629f515ac73aa727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 54/56] fix: reading an incomplete mixture edge in space
 crashed

---
 .../src/slam_optimizer/max_mixture/edge_se3_mixture.cpp   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
index ffa0dd1..4e93b82 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se3_mixture.cpp
@@ -128,6 +128,8 @@ void EdgeSE3Mixture::computeBestEdge()
 bool EdgeSE3Mixture::read(std::istream& is)
 {
   is >> numberComponents;
+  if (is.fail() || numberComponents < 1)
+    return false;
 
   allEdges.reserve(numberComponents);
   weights.reserve(numberComponents);
@@ -151,8 +153,8 @@ bool EdgeSE3Mixture::read(std::istream& is)
 
     VertexSE3* v0 = static_cast<VertexSE3*>(va->graph()->vertex(na));
     VertexSE3* v1 = static_cast<VertexSE3*>(va->graph()->vertex(nb));
-    assert(v0 != NULL);
-    assert(v1 != NULL);
+    if (is.fail() || v0 == NULL || v1 == NULL)
+      return false;
     allEdges[c]->setVertex(0, v0);
     allEdges[c]->setVertex(1, v1);
 
@@ -170,6 +172,8 @@ bool EdgeSE3Mixture::read(std::istream& is)
       }
     allEdges[c]->setInformation(inf);
   }
+  if (is.fail())
+    return false;
 
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
-- 
2.43.0


From f95b00c3adeda8de6d97f16da33bf1dff3374bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 55/56] fix: creating a switchable edge in space aborted

---
 .../switchable_constraints/edge_se3Switchable.cpp           | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se3Switchable.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se3Switchable.cpp
index 368f6bc..5e098b2 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se3Switchable.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se3Switchable.cpp
@@ -23,9 +23,9 @@ EdgeSE3Switchable::EdgeSE3Switchable()
   : g2o::BaseMultiEdge<6, Eigen::Isometry3d>()
 {
   resize(3);
-  _jacobianOplus[0].resize(6, 6);
-  _jacobianOplus[1].resize(6, 6);
-  _jacobianOplus[2].resize(6, 1);
+  new (&_jacobianOplus[0]) JacobianType(nullptr, 6, 6);
+  new (&_jacobianOplus[1]) JacobianType(nullptr, 6, 6);
+  new (&_jacobianOplus[2]) JacobianType(nullptr, 6, 1);
 }
 // ================================================
 bool EdgeSE3Switchable::read(std::istream& is)
-- 
2.43.0


From eddbcec0578b286ad6771c968885b8382da18440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 56/56] fix: incomplete records of switchable edges in space
 were read as complete

---
 .../switchable_constraints/edge_se3Switchable.cpp               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se3Switchable.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se3Switchable.cpp
index 5e098b2..e04a469 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se3Switchable.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se3Switchable.cpp
@@ -44,7 +44,7 @@ bool EdgeSE3Switchable::read(std::istream& is)
       if (i != j)
         information()(j, i) = information()(i, j);
     }
-  return true;
+  return !is.fail();
 }
 // ================================================
 bool EdgeSE3Switchable::write(std::ostream& os) const
-- 
2.43.0

