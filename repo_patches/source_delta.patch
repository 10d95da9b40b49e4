From 46f7e30edd6acff325e26e453309286bd8935eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 01/62] fix: mark the start node of each connected component

The start of a component was never labelled itself, so isolated nodes kept
label 0 and nodes were counted twice.
---
 include/arc_utilities/graph.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/graph.hpp b/include/arc_utilities/graph.hpp
index e2209ba..b605a3d 100644
--- a/include/arc_utilities/graph.hpp
+++ b/include/arc_utilities/graph.hpp
@@ -275,6 +275,7 @@ class Graph {
     // "queued" tracker to
     // avoid duplication, unlike what is used in CollisionMapGrid::MarkConnectedComponent
     std::queue<int64_t> working_queue;
+    components[starting_node_idx] = component_id;
     working_queue.push(starting_node_idx);
     size_t num_marked = 1;
 
-- 
2.43.0


From ac91102e68b89d3d1a20d1d842cad4ae2224b419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:49 +0000
Subject: [PATCH 02/62] fix: floor rather than truncate points to voxel grid
 cells

---
 include/arc_utilities/voxel_grid.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/arc_utilities/voxel_grid.hpp b/include/arc_utilities/voxel_grid.hpp
index 64f13f7..b175b53 100644
--- a/include/arc_utilities/voxel_grid.hpp
+++ b/include/arc_utilities/voxel_grid.hpp
@@ -757,23 +757,23 @@ class VoxelGrid {
   }
 
   inline GRID_INDEX PointInFrameToGridIndex(const double x, const double y, const double z) const {
-    const int64_t x_cell = (int64_t)(x * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(y * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(z * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)std::floor(x * inv_cell_x_size_);
+    const int64_t y_cell = (int64_t)std::floor(y * inv_cell_y_size_);
+    const int64_t z_cell = (int64_t)std::floor(z * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
   inline GRID_INDEX PointInFrameToGridIndex3d(const Eigen::Vector3d& point_in_grid_frame) const {
-    const int64_t x_cell = (int64_t)(point_in_grid_frame(0) * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(point_in_grid_frame(1) * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(point_in_grid_frame(2) * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)std::floor(point_in_grid_frame(0) * inv_cell_x_size_);
+    const int64_t y_cell = (int64_t)std::floor(point_in_grid_frame(1) * inv_cell_y_size_);
+    const int64_t z_cell = (int64_t)std::floor(point_in_grid_frame(2) * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
   inline GRID_INDEX PointInFrameToGridIndex4d(const Eigen::Vector4d& point_in_grid_frame) const {
-    const int64_t x_cell = (int64_t)(point_in_grid_frame(0) * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(point_in_grid_frame(1) * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(point_in_grid_frame(2) * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)std::floor(point_in_grid_frame(0) * inv_cell_x_size_);
+    const int64_t y_cell = (int64_t)std::floor(point_in_grid_frame(1) * inv_cell_y_size_);
+    const int64_t z_cell = (int64_t)std::floor(point_in_grid_frame(2) * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
-- 
2.43.0


From 40fd57fb9edf8360e07c4111ae27a9d62268114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:49 +0000
Subject: [PATCH 03/62] fix: SetChunkValue by coordinates sets the chunk

---
 include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 1220884..a892645 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -538,12 +538,12 @@ class DynamicSpatialHashedVoxelGrid {
 
   inline SET_STATUS SetChunkValue(const double x, const double y, const double z, const T& value) {
     Eigen::Vector3d location(x, y, z);
-    return SetCellValue(location, value);
+    return SetChunkValue(location, value);
   }
 
   inline SET_STATUS SetChunkValue(const double x, const double y, const double z, T&& value) {
     Eigen::Vector3d location(x, y, z);
-    return SetCellValue(location, value);
+    return SetChunkValue(location, value);
   }
 
   inline CHUNK_REGION GetContainingChunkRegion(const Eigen::Vector3d& grid_location) const {
-- 
2.43.0


From c2407a5405ca1221e6fc6d7aa5f9a3f3b3428977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 04/62] fix: UpdateRoadMapEdges calls the member linkage check

---
 include/arc_utilities/simple_prm_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_prm_planner.hpp b/include/arc_utilities/simple_prm_planner.hpp
index 95834d5..cbcffdf 100644
--- a/include/arc_utilities/simple_prm_planner.hpp
+++ b/include/arc_utilities/simple_prm_planner.hpp
@@ -142,7 +142,7 @@ class SimpleGeometricPrmPlanner {
   static void UpdateRoadMapEdges(arc_dijkstras::Graph<T, Allocator>& roadmap,
                                  const std::function<bool(const T&, const T&)>& edge_validity_check_fn,
                                  const std::function<double(const T&, const T&)>& distance_fn) {
-    if (roadmap.CheckGraphLinkage() == false) {
+    if (roadmap.checkGraphLinkage() == false) {
       throw std::invalid_argument("Provided roadmap has invalid linkage");
     }
 #ifdef ENABLE_PARALLEL_ROADMAP
-- 
2.43.0


From bb8a2f2fa3ef89f67d34e30e305d2e41cbcfd0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 05/62] fix: asymmetric distances when connecting a state
 towards the roadmap

---
 include/arc_utilities/simple_prm_planner.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/simple_prm_planner.hpp b/include/arc_utilities/simple_prm_planner.hpp
index cbcffdf..92a8f41 100644
--- a/include/arc_utilities/simple_prm_planner.hpp
+++ b/include/arc_utilities/simple_prm_planner.hpp
@@ -68,10 +68,12 @@ class SimpleGeometricPrmPlanner {
         if (distance_is_symmetric) {
           nearest_neighbors_distances[idx] = std::make_pair(nearest_neighbor_distance, nearest_neighbor_distance);
         } else {
-          const double reverse_graph_distance = distance_fn(state, roadmap.getNode(nearest_neighbor_index).getValue());
+          const double reverse_graph_distance = (nn_distance_direction == ROADMAP_TO_NEW_STATE)
+                                                    ? distance_fn(state, nearest_neighbor_state)
+                                                    : distance_fn(nearest_neighbor_state, state);
           if (nn_distance_direction == ROADMAP_TO_NEW_STATE) {
             nearest_neighbors_distances[idx] = std::make_pair(nearest_neighbor_distance, reverse_graph_distance);
-          } else if (nn_distance_direction == ROADMAP_TO_NEW_STATE) {
+          } else if (nn_distance_direction == NEW_STATE_TO_ROADMAP) {
             nearest_neighbors_distances[idx] = std::make_pair(reverse_graph_distance, nearest_neighbor_distance);
           } else {
             assert(false && "This code should not be reachable");
-- 
2.43.0


From 535476a657c667c19ce8817d0b3704a9a4e9dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 06/62] fix: distance matrix between two data sets has one row
 per first and one column per second item

---
 include/arc_utilities/arc_helpers.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 379e1a4..65ca776 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -509,7 +509,7 @@ template <typename FirstDatatype, typename SecondDatatype, typename FirstAllocat
 inline Eigen::MatrixXd BuildDistanceMatrixParallel(
     const std::vector<FirstDatatype, FirstAllocator>& data1, const std::vector<SecondDatatype, SecondAllocator>& data2,
     const std::function<double(const FirstDatatype&, const SecondDatatype&)>& distance_fn) {
-  Eigen::MatrixXd distance_matrix(data1.size(), data1.size());
+  Eigen::MatrixXd distance_matrix(data1.size(), data2.size());
 #if defined(_OPENMP)
 #pragma omp parallel for
 #endif
@@ -517,7 +517,6 @@ inline Eigen::MatrixXd BuildDistanceMatrixParallel(
     for (size_t jdx = 0; jdx < data2.size(); jdx++) {
       const double distance = distance_fn(data1[idx], data2[jdx]);
       distance_matrix((ssize_t)idx, (ssize_t)jdx) = distance;
-      distance_matrix((ssize_t)jdx, (ssize_t)idx) = distance;
     }
   }
   return distance_matrix;
@@ -548,12 +547,11 @@ template <typename FirstDatatype, typename SecondDatatype, typename FirstAllocat
 inline Eigen::MatrixXd BuildDistanceMatrixSerial(
     const std::vector<FirstDatatype, FirstAllocator>& data1, const std::vector<SecondDatatype, SecondAllocator>& data2,
     const std::function<double(const FirstDatatype&, const SecondDatatype&)>& distance_fn) {
-  Eigen::MatrixXd distance_matrix(data1.size(), data1.size());
+  Eigen::MatrixXd distance_matrix(data1.size(), data2.size());
   for (size_t idx = 0; idx < data1.size(); idx++) {
     for (size_t jdx = 0; jdx < data2.size(); jdx++) {
       const double distance = distance_fn(data1[idx], data2[jdx]);
       distance_matrix((ssize_t)idx, (ssize_t)jdx) = distance;
-      distance_matrix((ssize_t)jdx, (ssize_t)idx) = distance;
     }
   }
   return distance_matrix;
-- 
2.43.0


From dc9fc953edab41c2a6af169db31ead3c0e38c842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 07/62] fix: SerializeDijstrasResult compiles and writes into
 the buffer

---
 include/arc_utilities/dijkstras.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/dijkstras.hpp b/include/arc_utilities/dijkstras.hpp
index 8295751..35dfdae 100644
--- a/include/arc_utilities/dijkstras.hpp
+++ b/include/arc_utilities/dijkstras.hpp
@@ -94,15 +94,15 @@ class SimpleDijkstrasAlgorithm {
       const std::function<uint64_t(const NodeValueType&, std::vector<uint8_t>&)>& value_serializer) {
     const uint64_t start_buffer_size = buffer.size();
     // Serialize the graph
-    result.first.SerializeSelf(buffer, value_serializer);
+    result.first.serializeSelf(buffer, value_serializer);
     // Serialize the previous index
     const auto index_serializer =
         std::bind(arc_utilities::SerializeFixedSizePOD<int64_t>, std::placeholders::_1, std::placeholders::_2);
-    SerializeVector(result.second.first, index_serializer);
+    arc_utilities::SerializeVector<int64_t>(result.second.first, buffer, index_serializer);
     // Serialze the distances
     const auto distance_serializer =
         std::bind(arc_utilities::SerializeFixedSizePOD<double>, std::placeholders::_1, std::placeholders::_2);
-    SerializeVector(result.second.second, distance_serializer);
+    arc_utilities::SerializeVector<double>(result.second.second, buffer, distance_serializer);
     // Figure out how many bytes were written
     const uint64_t end_buffer_size = buffer.size();
     const uint64_t bytes_written = end_buffer_size - start_buffer_size;
-- 
2.43.0


From a8f02ad71fc2cf8aeff51c4eadbf3a1272069ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 08/62] fix: base64 decoding indexes its table with unsigned
 characters

---
 src/arc_utilities/base64_helpers.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arc_utilities/base64_helpers.cpp b/src/arc_utilities/base64_helpers.cpp
index 90d0f82..97c8b50 100644
--- a/src/arc_utilities/base64_helpers.cpp
+++ b/src/arc_utilities/base64_helpers.cpp
@@ -30,17 +30,17 @@ std::vector<uint8_t> Decode(const std::string& encoded) {
   const size_t L = ((encoded_length + 3) / 4 - pad) * 4;
   std::vector<uint8_t> buffer(L / 4 * 3 + pad, 0x00);
   for (size_t i = 0, j = 0; i < L; i += 4) {
-    const int32_t n = B64IndexTable[encoded[i]] << 18 | B64IndexTable[encoded[i + 1]] << 12 |
-                      B64IndexTable[encoded[i + 2]] << 6 | B64IndexTable[encoded[i + 3]];
+    const int32_t n = B64IndexTable[(uint8_t)encoded[i]] << 18 | B64IndexTable[(uint8_t)encoded[i + 1]] << 12 |
+                      B64IndexTable[(uint8_t)encoded[i + 2]] << 6 | B64IndexTable[(uint8_t)encoded[i + 3]];
     buffer[j++] = (uint8_t)(n >> 16);
     buffer[j++] = (uint8_t)(n >> 8 & 0xFF);
     buffer[j++] = (uint8_t)(n & 0xFF);
   }
   if (pad > 0) {
-    int32_t n = B64IndexTable[encoded[L]] << 18 | B64IndexTable[encoded[L + 1]] << 12;
+    int32_t n = B64IndexTable[(uint8_t)encoded[L]] << 18 | B64IndexTable[(uint8_t)encoded[L + 1]] << 12;
     buffer[buffer.size() - 1] = (uint8_t)(n >> 16);
     if (encoded_length > L + 2 && encoded[L + 2] != '=') {
-      n |= B64IndexTable[encoded[L + 2]] << 6;
+      n |= B64IndexTable[(uint8_t)encoded[L + 2]] << 6;
       buffer.push_back((uint8_t)(n >> 8 & 0xFF));
     }
   }
-- 
2.43.0


From 80f8bec748d7cb58f622d825d3245f65f3924d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 09/62] fix: report failed writes of compressed files

---
 src/arc_utilities/zlib_helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/zlib_helpers.cpp b/src/arc_utilities/zlib_helpers.cpp
index b7222ad..ac3e7cd 100644
--- a/src/arc_utilities/zlib_helpers.cpp
+++ b/src/arc_utilities/zlib_helpers.cpp
@@ -186,7 +186,7 @@ void CompressAndWriteToFile(const std::vector<uint8_t>& uncompressed, const std:
   }
   output_file.write(reinterpret_cast<const char*>(compressed.data()), (std::streamsize)compressed.size());
   output_file.close();
-  if (output_file.bad()) {
+  if (output_file.fail()) {
     throw_arc_exception(std::runtime_error, "Error writing to file");
   }
 }
-- 
2.43.0


From 84d7fb8606f857dae52a3aef4d8a26c0ab2245c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:26 +0000
Subject: [PATCH 10/62] fix: hierarchical clustering with an infinite threshold
 stops at a single cluster

---
 include/arc_utilities/simple_hierarchical_clustering.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_hierarchical_clustering.hpp b/include/arc_utilities/simple_hierarchical_clustering.hpp
index 945960a..9c5bb35 100644
--- a/include/arc_utilities/simple_hierarchical_clustering.hpp
+++ b/include/arc_utilities/simple_hierarchical_clustering.hpp
@@ -259,7 +259,8 @@ class SimpleHierarchicalClustering {
           closest_element_pair.first;
       closest_distance = closest_element_pair.second;
       // std::cout << "Element pair: " << PrettyPrint::PrettyPrint(closest_element_pair, true) << std::endl;
-      if (closest_distance <= max_cluster_distance) {
+      // The closest distance is infinite when there is no pair left to merge
+      if ((closest_distance <= max_cluster_distance) && (closest_distance < INFINITY)) {
         const std::pair<bool, int64_t>& first_element = closest_elements.first;
         const std::pair<bool, int64_t>& second_element = closest_elements.second;
         // If both elements are points, create a new cluster
-- 
2.43.0


From e9e5a3f762f80cc0bfbb801ee33bb8dc7cee66fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:26 +0000
Subject: [PATCH 11/62] fix: preliminary weighted k-means uses the weights of
 the chosen subset

---
 include/arc_utilities/simple_kmeans_clustering.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/simple_kmeans_clustering.hpp b/include/arc_utilities/simple_kmeans_clustering.hpp
index fd90f64..9a78ecb 100644
--- a/include/arc_utilities/simple_kmeans_clustering.hpp
+++ b/include/arc_utilities/simple_kmeans_clustering.hpp
@@ -299,20 +299,23 @@ class SimpleKMeansClustering {
       }
       std::vector<Datatype, Allocator> random_subset;
       random_subset.reserve(subset_size);
+      std::vector<double> random_subset_weights;
+      random_subset_weights.reserve(subset_size);
       for (auto itr = index_map.begin(); itr != index_map.end(); ++itr) {
         if (itr->second == 1u) {
           const size_t random_index = itr->first;
           const Datatype& random_element = data[random_index];
           random_subset.push_back(random_element);
+          random_subset_weights.push_back(weights[random_index]);
         }
       }
       assert(random_subset.size() == subset_size);
       // Run clustering on the subset
       std::vector<uint32_t> random_subset_labels =
-          ClusterWeighted(random_subset, weights, distance_fn, average_fn, num_clusters, false);
+          ClusterWeighted(random_subset, random_subset_weights, distance_fn, average_fn, num_clusters, false);
       // Now we use the centers of the clusters to form the cluster centers
-      cluster_centers =
-          ComputeClusterCentersWeighted(random_subset, weights, random_subset_labels, average_fn, num_clusters);
+      cluster_centers = ComputeClusterCentersWeighted(random_subset, random_subset_weights, random_subset_labels,
+                                                      average_fn, num_clusters);
     } else {
       // This makes sure we don't get duplicates
       std::map<size_t, uint8_t> index_map;
-- 
2.43.0


From 234f9ed9a99acf052bf7f3422d771cd4e3ec3f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:26 +0000
Subject: [PATCH 12/62] fix: k-means refuses more clusters than items instead
 of searching initial centres forever

---
 include/arc_utilities/simple_kmeans_clustering.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/arc_utilities/simple_kmeans_clustering.hpp b/include/arc_utilities/simple_kmeans_clustering.hpp
index 9a78ecb..08995a0 100644
--- a/include/arc_utilities/simple_kmeans_clustering.hpp
+++ b/include/arc_utilities/simple_kmeans_clustering.hpp
@@ -158,6 +158,10 @@ class SimpleKMeansClustering {
                 << std::endl;
       return std::vector<uint32_t>(data.size(), 0u);
     }
+    // The initial cluster centers are distinct items
+    if (num_clusters > data.size()) {
+      throw std::invalid_argument("Cannot make more clusters than there are items");
+    }
     // Prepare an RNG for cluster initialization
     auto seed = std::chrono::high_resolution_clock::now().time_since_epoch().count();
     std::mt19937_64 prng(seed);
@@ -264,6 +268,10 @@ class SimpleKMeansClustering {
                 << std::endl;
       return std::vector<uint32_t>(data.size(), 0u);
     }
+    // The initial cluster centers are distinct items
+    if (num_clusters > data.size()) {
+      throw std::invalid_argument("Cannot make more clusters than there are items");
+    }
 
     // Prepare an RNG for cluster initialization
     auto seed = std::chrono::high_resolution_clock::now().time_since_epoch().count();
-- 
2.43.0


From 44a3b409c5b2cb79016b611894d7787b0581a0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:00 +0000
Subject: [PATCH 13/62] fix: dynamic time warping extends the cheapest of three
 alignments, also when two are tied

---
 include/arc_utilities/simple_dtw.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/arc_utilities/simple_dtw.hpp b/include/arc_utilities/simple_dtw.hpp
index f4f021c..bd8c708 100644
--- a/include/arc_utilities/simple_dtw.hpp
+++ b/include/arc_utilities/simple_dtw.hpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 
 #include <Eigen/Geometry>
+#include <algorithm>
 #include <functional>
 #include <iostream>
 #include <mutex>
@@ -54,19 +55,12 @@ class SimpleDTW {
       for (ssize_t j = 1; j <= (ssize_t)second_sequence.size(); j++) {
         const SecondDatatype& second_item = second_sequence[(size_t)j - 1];
         const double index_cost = distance_fn(first_item, second_item);
-        double prev_cost = 0.0;
         // Get the three neighboring values from the matrix to use for the update
         double im1j = dtw_matrix_(i - 1, j);
         double im1jm1 = dtw_matrix_(i - 1, j - 1);
         double ijm1 = dtw_matrix_(i, j - 1);
         // Start the update step
-        if (im1j < im1jm1 && im1j < ijm1) {
-          prev_cost = im1j;
-        } else if (ijm1 < im1j && ijm1 < im1jm1) {
-          prev_cost = ijm1;
-        } else {
-          prev_cost = im1jm1;
-        }
+        const double prev_cost = std::min(std::min(im1j, ijm1), im1jm1);
         // Update the value in the matrix
         const double new_cost = index_cost + prev_cost;
         dtw_matrix_(i, j) = new_cost;
-- 
2.43.0


From 96237cc26f55e2eaf98a2e2b96a48834b05b24b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:00 +0000
Subject: [PATCH 14/62] fix: upsampling a section that has enough points
 returns the section

---
 include/arc_utilities/path_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/path_utils.hpp b/include/arc_utilities/path_utils.hpp
index b31fa13..f38181c 100644
--- a/include/arc_utilities/path_utils.hpp
+++ b/include/arc_utilities/path_utils.hpp
@@ -167,7 +167,7 @@ inline std::vector<Configuration, ConfigAlloc> UpsamplePathPartial(const std::ve
 
   // Return early with no message if the number of points already matches
   if (end_ind - start_ind == num_points) {
-    return path;
+    return std::vector<Configuration, ConfigAlloc>(path.begin() + start_ind, path.begin() + end_ind);
   }
   // Abort with a warning if the number of points is already too many
   else if (end_ind - start_ind > num_points) {
@@ -175,7 +175,7 @@ inline std::vector<Configuration, ConfigAlloc> UpsamplePathPartial(const std::ve
                  "number of points\n"
               << "Start ind: " << start_ind << "    End ind: " << end_ind << "    Num points: " << num_points
               << std::endl;
-    return path;
+    return std::vector<Configuration, ConfigAlloc>(path.begin() + start_ind, path.begin() + end_ind);
   } else {
     const ssize_t num_segments = end_ind - start_ind - 1;
     assert(num_segments > 0);
-- 
2.43.0


From ca5887c86435aeac94190a044e32501f8517c846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:18 +0000
Subject: [PATCH 15/62] fix: resetting a profiler name also clears its timed
 values

---
 src/arc_utilities/timing.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index cce5239..6ba6e79 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -34,8 +34,15 @@ void Profiler::reset_and_preallocate(size_t num_names, size_t num_events) {
 
 void Profiler::reset(std::string name) {
   Profiler* m = getInstance();
-  if (m->data.find(name) != m->data.end()) {
-    m->data[name].resize(0);
+  const auto data_itr = m->data.find(name);
+  const auto timed_double_itr = m->timed_double_data.find(name);
+  if (data_itr != m->data.end()) {
+    data_itr->second.clear();
+  }
+  if (timed_double_itr != m->timed_double_data.end()) {
+    timed_double_itr->second.clear();
+  }
+  if (data_itr != m->data.end() || timed_double_itr != m->timed_double_data.end()) {
     startTimer(name);
   }
 }
-- 
2.43.0


From cce237716119a3864097c0f9f9618440e7624ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:18 +0000
Subject: [PATCH 16/62] fix: profiler summaries of names without data and reads
 of unknown names

---
 src/arc_utilities/timing.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index 6ba6e79..b0a7ff3 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -100,7 +100,8 @@ double Profiler::recordDouble(std::string timer_name, double datum) {
 
 std::vector<double> Profiler::getData(std::string name) {
   Profiler* m = getInstance();
-  return m->data[name];
+  const auto itr = m->data.find(name);
+  return (itr != m->data.end()) ? itr->second : std::vector<double>();
 }
 
 void Profiler::printSingleSummary(std::string name) {
@@ -111,7 +112,7 @@ void Profiler::printSingleSummary(std::string name) {
   std::cout << "|| " << name << " || Summary :\n";
   std::cout << " '" << box << "' "
             << "\n";
-  if (m->data.find(name) == m->data.end()) {
+  if (m->getData(name).empty()) {
     std::cout << name << " never called\n\n";
     return;
   }
-- 
2.43.0


From edfb5611f5ade0992bdce4c7354fadbde54d1ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:18 +0000
Subject: [PATCH 17/62] fix: profiler reports without any names

---
 src/arc_utilities/timing.cpp | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index b0a7ff3..b52c84c 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -134,19 +134,22 @@ void Profiler::printSingleSummary(std::string name) {
   std::cout << "\n";
 }
 
+// Width of the label column, also when there are no names to list
+static std::size_t labelLength(const std::vector<std::string>& names) {
+  std::size_t label_len = 8;
+  for (const auto& name : names) {
+    label_len = std::max(label_len, name.length() + 2);
+  }
+  return label_len;
+}
+
 void Profiler::printGroupSummary(const std::vector<std::string>& names) {
   Profiler* m = getInstance();
   std::cout << " .=======================. \n";
   std::cout << "||    Profile Summary    ||\n";
   std::cout << " '=======================' \n";
 
-  std::size_t label_len =
-      max_element(names.begin(), names.end(),
-                  [](const std::string& a, const std::string& b) { return a.length() < b.length(); })
-          ->length() +
-      2;
-
-  label_len = std::max(label_len, (size_t)8);
+  const std::size_t label_len = labelLength(names);
 
   const std::string label_format = ("%-" + std::to_string(label_len) + "s");
 
@@ -226,13 +229,7 @@ void Profiler::writeGroupSummary(const std::string& filename, const std::vector<
   // std::cout << "||    Profile Summary    ||\n";
   // std::cout << " '=======================' \n";
 
-  std::size_t label_len =
-      max_element(names.begin(), names.end(),
-                  [](const std::string& a, const std::string& b) { return a.length() < b.length(); })
-          ->length() +
-      2;
-
-  label_len = std::max(label_len, (size_t)8);
+  const std::size_t label_len = labelLength(names);
 
   const std::string label_format = ("%-" + std::to_string(label_len) + "s");
 
@@ -307,13 +304,7 @@ void Profiler::writeAll(const std::string& filename, size_t limit_per_name) {
 
   std::sort(all_names.begin(), all_names.end());
 
-  std::size_t label_len =
-      max_element(all_names.begin(), all_names.end(),
-                  [](const std::string& a, const std::string& b) { return a.length() < b.length(); })
-          ->length() +
-      2;
-
-  label_len = std::max(label_len, (size_t)8);
+  const std::size_t label_len = labelLength(all_names);
 
   const std::string label_format = ("%-" + std::to_string(label_len) + "s");
   fprintf(outfile, label_format.c_str(), "Label");
-- 
2.43.0


From 41487a239bdf115292783aa1a0aa26afafbfaec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:18 +0000
Subject: [PATCH 18/62] fix: profiler reports list a name used for both kinds
 of data once

---
 src/arc_utilities/timing.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index b52c84c..3a67f97 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -198,6 +198,8 @@ std::vector<std::string> Profiler::getAllNames() {
   }
 
   std::sort(all_names.begin(), all_names.end());
+  // A name may be used for both kinds of data
+  all_names.erase(std::unique(all_names.begin(), all_names.end()), all_names.end());
   return all_names;
 }
 
@@ -294,15 +296,7 @@ void Profiler::writeAll(const std::string& filename, size_t limit_per_name) {
 
   addHeader(outfile);
 
-  std::vector<std::string> all_names;
-  for (auto const& imap : m->data) {
-    all_names.push_back(imap.first);
-  }
-  for (auto const& imap : m->timed_double_data) {
-    all_names.push_back(imap.first);
-  }
-
-  std::sort(all_names.begin(), all_names.end());
+  const std::vector<std::string> all_names = getAllNames();
 
   const std::size_t label_len = labelLength(all_names);
 
-- 
2.43.0


From ac09ce6dc7666bcf1b259e50b17915175cad8d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:18 +0000
Subject: [PATCH 19/62] fix: re-seeding XorShift1024StarPRNG resets its
 position

---
 include/arc_utilities/arc_helpers.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 65ca776..bbc900e 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -916,6 +916,7 @@ class XorShift1024StarPRNG {
     for (size_t idx = 0u; idx < state_.size(); idx++) {
       state_[idx] = temp_seed_gen();
     }
+    p = 0;
   }
 
   inline void discard(const unsigned long long z) {
-- 
2.43.0


From be6a6b1a6eea70000e94a428fd7aa50db7666ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:18 +0000
Subject: [PATCH 20/62] fix: GetBit masks with the full width of its type

---
 include/arc_utilities/arc_helpers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index bbc900e..71cd40b 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -172,7 +172,7 @@ inline T SetBit(const T current, const uint32_t bit_position, const bool bit_val
 template <typename T>
 inline bool GetBit(const T current, const uint32_t bit_position) {
   // Type safety checks are performed in the SetBit() function
-  const uint32_t mask = arc_helpers::SetBit((T)0, bit_position, true);
+  const T mask = arc_helpers::SetBit((T)0, bit_position, true);
   return (mask & current) > 0;
 }
 
-- 
2.43.0


From 053da649c2ab63cb2ef5e7e1419935c1318006b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:18 +0000
Subject: [PATCH 21/62] fix: truncated normal draws in its tails use the
 standardized bounds

---
 include/arc_utilities/arc_helpers.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 71cd40b..ec54a79 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -1137,6 +1137,8 @@ class TruncatedNormalDistribution {
           case_ = TYPE_3;
         } else {
           case_ = TYPE_4;
+          // Draws are made between the standardized bounds
+          uniform_range_dist_ = std::uniform_real_distribution<double>(std_lower_bound_, std_upper_bound_);
         }
       }
       assert((case_ == TYPE_1) || (case_ == TYPE_2) || (case_ == TYPE_3) || (case_ == TYPE_4));
-- 
2.43.0


From 3cf5f20607bac92f0437e316e0fb49404eb66f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:18 +0000
Subject: [PATCH 22/62] fix: a log never overwrites what its copies wrote

---
 include/arc_utilities/log.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/arc_utilities/log.hpp b/include/arc_utilities/log.hpp
index c6dc7b3..fb0c396 100644
--- a/include/arc_utilities/log.hpp
+++ b/include/arc_utilities/log.hpp
@@ -40,6 +40,9 @@ class Log {
       std::cerr << "\x1b[31;1m Unable to create folder/file to log to: " << filename << "\x1b[37m \n";
       throw std::invalid_argument("filename must be write-openable");
     }
+    // Always write at the end, copies of this log write to the same file
+    out_file_.close();
+    out_file_.open(filename, std::ios_base::out | std::ios_base::app);
 
     if (add_header) {
       time_t rawtime;
-- 
2.43.0


From 52bf08f1a97e2bf1451a0677cb06b6559c18135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:57 +0000
Subject: [PATCH 23/62] fix: log to a file name without a directory

---
 include/arc_utilities/log.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/log.hpp b/include/arc_utilities/log.hpp
index fb0c396..f1b2c31 100644
--- a/include/arc_utilities/log.hpp
+++ b/include/arc_utilities/log.hpp
@@ -32,7 +32,9 @@ class Log {
   Log(const std::string& filename, bool add_header = false) : filename_(filename) {
     // Create the parent folder if needed
     boost::filesystem::path p(filename_);
-    arc_utilities::CreateDirectory(p.parent_path());
+    if (p.has_parent_path()) {
+      arc_utilities::CreateDirectory(p.parent_path());
+    }
 
     out_file_.open(filename, std::ios_base::out | std::ios_base::trunc);
     // check if we've succesfully opened the file
-- 
2.43.0


From 3bed39205ae6b026f76a7306ea147c126c5c36e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 24/62] fix: signed revolute distances that wrap have the right
 sign

---
 include/arc_utilities/math_helpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/math_helpers.hpp b/include/arc_utilities/math_helpers.hpp
index 4f81a18..790f7ec 100644
--- a/include/arc_utilities/math_helpers.hpp
+++ b/include/arc_utilities/math_helpers.hpp
@@ -179,9 +179,9 @@ inline double ContinuousRevoluteSignedDistance(const double p1, const double p2)
   const double raw_distance = real_p2 - real_p1;
   if ((raw_distance <= -M_PI) || (raw_distance > M_PI)) {
     if (raw_distance <= -M_PI) {
-      return (-(2.0 * M_PI) - raw_distance);
+      return (raw_distance + (2.0 * M_PI));
     } else if (raw_distance > M_PI) {
-      return ((2.0 * M_PI) - raw_distance);
+      return (raw_distance - (2.0 * M_PI));
     } else {
       return raw_distance;
     }
-- 
2.43.0


From 74c55092f623b9ac3f90f0fc2952e97c1609cb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 25/62] fix: converting a vector copies its elements only

---
 include/arc_utilities/eigen_std_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/eigen_std_conversions.hpp b/include/arc_utilities/eigen_std_conversions.hpp
index c0d6819..be4c5fb 100644
--- a/include/arc_utilities/eigen_std_conversions.hpp
+++ b/include/arc_utilities/eigen_std_conversions.hpp
@@ -10,7 +10,7 @@ Output ConvertTo(Eigen::VectorXd const &vec);
 
 template <>
 std::vector<double> ConvertTo<std::vector<double>>(Eigen::VectorXd const &vec) {
-  return std::vector<double>(vec.data(), vec.data() + static_cast<unsigned long>(vec.size()) * sizeof(double));
+  return std::vector<double>(vec.data(), vec.data() + vec.size());
 }
 
 #endif  // LGV_EIGEN_STD_CONVERSIONS
-- 
2.43.0


From fbce77b182d44e3bd6cf47f06242bb4824a44e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 26/62] fix: twists between transforms compile

---
 include/arc_utilities/eigen_helpers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index cfd2ab7..9977dee 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -213,7 +213,7 @@ inline Eigen::Matrix<double, 6, 1> TwistBetweenTransforms(const Eigen::Transform
                                                           const Eigen::Transform<double, 3, _Mode>& end) {
   EIGEN_STATIC_ASSERT(_Mode == Eigen::Affine || _Mode == Eigen::Isometry,
                       "THIS FUNCTION IS ONLY INTENDED FOR HOMOGENEOUS TRANSFORMS!!!");
-  const Eigen::Transform<double, 3, _Mode> t_diff = start.inverse(_Mode) * end;
+  const Eigen::Transform<double, 3, _Mode> t_diff = start.inverse((Eigen::TransformTraits)_Mode) * end;
   return TwistUnhat(t_diff.matrix().log());
 }
 
-- 
2.43.0


From b10dbaa7a23aeb87c3ffe55af08430b8de6af09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 27/62] fix: distance of equal or opposite rotation matrices is
 not NaN

---
 include/arc_utilities/eigen_helpers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index 9977dee..1f76ff2 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -347,7 +347,7 @@ inline double Distance(const Eigen::Quaterniond& q1, const Eigen::Quaterniond& q
 inline double Distance(const Eigen::Matrix3d& r1, const Eigen::Matrix3d& r2) {
   const auto delta = r1 * r2.transpose();
   const auto tr = delta.trace();
-  return acos((tr - 1.0) / 2.0);
+  return acos(std::max(-1.0, std::min((tr - 1.0) / 2.0, 1.0)));
 }
 
 inline double Distance(const Eigen::Isometry3d& t1, const Eigen::Isometry3d& t2, const double alpha = 0.5) {
-- 
2.43.0


From 28b0c1213c3d4824e86434184152bb4480f2d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 28/62] fix: pyramids in cones around the diagonal of all three
 axes

---
 include/arc_utilities/eigen_helpers.hpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index 1f76ff2..f09c276 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -908,14 +908,7 @@ inline std::pair<double, double> DistanceToLine(const Eigen::Vector3d& point_on_
 inline VectorVector3d ConvertConeToPyramid(const Eigen::Vector3d& cone_direction,
                                            const double min_normalized_dot_product) {
   // Build a vector that is garunteed to be perpendicular to cone_direction, and non-zero
-  auto tmp = VectorRejection(cone_direction, Eigen::Vector3d::UnitX());
-  tmp += VectorRejection(cone_direction, Eigen::Vector3d::UnitY());
-  tmp += VectorRejection(cone_direction, Eigen::Vector3d::UnitZ());
-
-  assert(tmp.norm() > 1e-6);
-  tmp.normalize();
-
-  const Eigen::Vector3d p1 = tmp;
+  const Eigen::Vector3d p1 = cone_direction.unitOrthogonal();
   const Eigen::Vector3d p2 = cone_direction.cross(p1).normalized();
   const Eigen::Vector3d p3 = -p1;
   const Eigen::Vector3d p4 = -p2;
-- 
2.43.0


From bac418fed57169e0b3e52608f8f3d85f16f9f5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 29/62] fix: moving the base of a robot also updates its
 inverse base transform

---
 include/arc_utilities/simple_linked_robot_model.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 89097c0..8c2e39f 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -617,6 +617,7 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
 
   inline void UpdateBaseTransform(const Eigen::Isometry3d& base_transform) {
     base_transform_ = base_transform;
+    inverse_base_transform_ = base_transform_.inverse();
     UpdateTransforms();
   }
 
-- 
2.43.0


From abe3236ca468c9584f4d379fda443b77a7f80e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 30/62] fix: prismatic axes in link point Jacobians are
 directions

---
 include/arc_utilities/simple_linked_robot_model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 8c2e39f..65d4a31 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -834,7 +834,7 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
         jacobian.block<3, 1>(0, active_joint_index) = joint_axis.cross(world_point - joint_transform.translation());
         jacobian.block<3, 1>(3, active_joint_index) = joint_axis;
       } else if (parent_joint.JointModel().IsPrismatic()) {
-        const Eigen::Vector3d joint_axis = (Eigen::Vector3d)(joint_transform * parent_joint.JointAxis());
+        const Eigen::Vector3d joint_axis = (Eigen::Vector3d)(joint_transform.rotation() * parent_joint.JointAxis());
         jacobian.block<3, 1>(0, active_joint_index) = joint_axis;
       } else {
         // We do nothing for fixed joints
-- 
2.43.0


From 19d23571e0c45163bd4cbc15791c696981a49947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 31/62] fix: link transforms are updated from parents to
 children whatever the order of the joints

---
 include/arc_utilities/simple_linked_robot_model.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 65d4a31..98c8be2 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -332,10 +332,14 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
   inline void UpdateTransforms() {
     // Update the transform for the first link
     links_[0].UpdateLinkTransform(base_transform_);
-    // Go out the kinematic chain
-    for (size_t idx = 0; idx < joints_.size(); idx++) {
+    // Go out the kinematic tree, parents before their children
+    std::vector<int64_t> joint_order = kinematic_skeleton_[0].child_joint_indices_;
+    for (size_t idx = 0; idx < joint_order.size(); idx++) {
       // Get the current joint
-      const RobotJoint& current_joint = joints_[idx];
+      const RobotJoint& current_joint = joints_[(size_t)joint_order[idx]];
+      const std::vector<int64_t>& next_joints =
+          kinematic_skeleton_[(size_t)current_joint.ChildLinkIndex()].child_joint_indices_;
+      joint_order.insert(joint_order.end(), next_joints.begin(), next_joints.end());
       // Get the parent link
       const RobotLink& parent_link = links_[(size_t)current_joint.ParentLinkIndex()];
       // Get the child link
-- 
2.43.0


From a9a9b46bcc775f9f3de65844b402f2197633a4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 32/62] fix: robot models whose joints refer to missing links
 are invalid

---
 include/arc_utilities/simple_linked_robot_model.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 98c8be2..4576da1 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -553,6 +553,11 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
       // Add the edge into the kinematic skeleton
       const int64_t parent_link_index = current_joint.ParentLinkIndex();
       const int64_t child_link_index = current_joint.ChildLinkIndex();
+      if ((parent_link_index < 0) || (parent_link_index >= (int64_t)links.size()) || (child_link_index < 0) ||
+          (child_link_index >= (int64_t)links.size())) {
+        std::cerr << "Joint " << current_joint.JointName() << " refers to links that do not exist" << std::endl;
+        return std::make_pair(std::vector<KinematicSkeletonElement>(), false);
+      }
       // Set the child->parent relationship
       kinematic_skeleton[(size_t)child_link_index].parent_link_index_ = parent_link_index;
       kinematic_skeleton[(size_t)child_link_index].parent_joint_index_ = joint_idx;
-- 
2.43.0


From 3bf80dcaa22a0f9605314b2bec7b77da32ecfdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 33/62] fix: a robot can be set to the position it reports

---
 include/arc_utilities/simple_linked_robot_model.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 4576da1..88797d5 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -372,7 +372,7 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
 
   inline void SetConfig(const SimpleLinkedConfiguration& new_config) {
     if (new_config.size() == num_active_joints_) {
-      config_.clear();
+      SimpleLinkedConfiguration real_config;
       size_t config_idx = 0u;
       for (size_t idx = 0; idx < joints_.size(); idx++) {
         RobotJoint& current_joint = joints_[idx];
@@ -383,13 +383,14 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
           if (config_idx < new_config.size()) {
             const SimpleJointModel& new_joint = new_config[config_idx];
             current_joint.JointModel().SetValue(new_joint.GetValue());
-            config_.push_back(current_joint.JointModel());
+            real_config.push_back(current_joint.JointModel());
             config_idx++;
           } else {
             throw std::runtime_error("config_idx out of range");
           }
         }
       }
+      config_ = real_config;
       // Update forward kinematics
       UpdateTransforms();
     } else {
-- 
2.43.0


From 8a4bae56be94b4270f9d85d3e8f5ac59d7ac181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 34/62] fix: copies of a trajectory do not use the cached
 segment of the original

---
 .../time_optimal_trajectory_parametrization.hpp          | 3 +++
 .../time_optimal_trajectory_parametrization.cpp          | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/arc_utilities/time_optimal_trajectory_parametrization.hpp b/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
index 3ef54ab..be9540f 100644
--- a/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
+++ b/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
@@ -74,6 +74,9 @@ class Trajectory {
   Trajectory(const Path& path_, const Eigen::VectorXd& max_velocity_, const Eigen::VectorXd& max_acceleration_,
              double timestep = 0.001);
 
+  // The query cache refers to the steps of one trajectory, so it is not copied
+  Trajectory(const Trajectory& other);
+
   ~Trajectory(void);
 
   // Returns the optimal duration of the trajectory
diff --git a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
index ab1ee4b..e90744b 100644
--- a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
@@ -281,6 +281,15 @@ Trajectory::Trajectory(const Path& path, const Eigen::VectorXd& max_velocity, co
   }
 }
 
+Trajectory::Trajectory(const Trajectory& other)
+    : path_(other.path_),
+      max_velocity_(other.max_velocity_),
+      max_acceleration_(other.max_acceleration_),
+      n_(other.n_),
+      trajectory_(other.trajectory_),
+      time_step_(other.time_step_),
+      cached_time_(std::numeric_limits<double>::max()) {}
+
 Trajectory::~Trajectory(void) {}
 
 void Trajectory::OutputPhasePlaneTrajectory() const {
-- 
2.43.0


From 9cfef5dd3da4fce81464a1d28d180c2c2c708c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 35/62] fix: trajectories are at their ends before their start
 and after their end

---
 src/arc_utilities/time_optimal_trajectory_parametrization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
index e90744b..f3faf11 100644
--- a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
@@ -642,7 +642,8 @@ std::list<Trajectory::TrajectoryStep>::const_iterator Trajectory::GetTrajectoryS
   }
 }
 
-std::pair<Eigen::VectorXd, Eigen::VectorXd> Trajectory::GetPositionVelocity(const double time) const {
+std::pair<Eigen::VectorXd, Eigen::VectorXd> Trajectory::GetPositionVelocity(const double query_time) const {
+  const double time = std::max(0.0, std::min(query_time, Duration()));
   std::list<TrajectoryStep>::const_iterator it = GetTrajectorySegment(time);
   std::list<TrajectoryStep>::const_iterator previous = it;
   previous--;
-- 
2.43.0


From 663e4ec5dcc88ed162ed1e31d73228424696c92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 36/62] fix: assigned paths own their segments

---
 .../time_optimal_trajectory_parametrization.hpp           | 2 ++
 .../time_optimal_trajectory_parametrization.cpp           | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/arc_utilities/time_optimal_trajectory_parametrization.hpp b/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
index be9540f..147dcf8 100644
--- a/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
+++ b/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
@@ -41,6 +41,8 @@ class Path {
 
   Path(const Path& path);
 
+  Path& operator=(const Path& path);
+
   ~Path();
 
   double Length() const;
diff --git a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
index f3faf11..8025032 100644
--- a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
@@ -161,6 +161,14 @@ Path::Path(const Path& path) : length_(path.length_), switching_points_(path.swi
   }
 }
 
+Path& Path::operator=(const Path& path) {
+  Path copy(path);
+  std::swap(length_, copy.length_);
+  switching_points_.swap(copy.switching_points_);
+  path_segments_.swap(copy.path_segments_);
+  return *this;
+}
+
 Path::~Path() {
   for (std::list<PathSegment*>::iterator it = path_segments_.begin(); it != path_segments_.end(); it++) {
     delete *it;
-- 
2.43.0


From 825a597615b5e6f866525013054248f6ead79361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 37/62] fix: zip_repeat_shorter works for a single sequence

---
 src/arc_utilities/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/algorithms.py b/src/arc_utilities/algorithms.py
index bfec369..f566f97 100644
--- a/src/arc_utilities/algorithms.py
+++ b/src/arc_utilities/algorithms.py
@@ -35,7 +35,7 @@ def repeat_last(x: List):
 
 
 def zip_repeat_shorter(*args):
-    longest_len = max(*[len(x) for x in args])
+    longest_len = max(len(x) for x in args)
     zipped = zip(*[repeat_last(x) for x in args])
     for i in range(longest_len):
         yield next(zipped)
-- 
2.43.0


From 09e4ebc53269413d9141181f1a91f58536a261b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 38/62] fix: nested_dict_update replaces a plain value by an
 updating mapping instead of failing

---
 src/arc_utilities/algorithms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/algorithms.py b/src/arc_utilities/algorithms.py
index f566f97..9927917 100644
--- a/src/arc_utilities/algorithms.py
+++ b/src/arc_utilities/algorithms.py
@@ -13,7 +13,10 @@ def nested_dict_update(base_dict: Dict, update_dict: Optional[Dict]):
         return base_dict
     for k, v in update_dict.items():
         if isinstance(v, collections.abc.Mapping):
-            base_dict[k] = nested_dict_update(base_dict.get(k, {}), v)
+            base_value = base_dict.get(k)
+            if not isinstance(base_value, collections.abc.Mapping):
+                base_value = {}
+            base_dict[k] = nested_dict_update(base_value, v)
         else:
             base_dict[k] = v
     return base_dict
-- 
2.43.0


From 81567b99aabcc2d97c103ce7801a882daa4d2334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 39/62] fix: count_files_recursive counts symbolic links
 instead of following them

---
 src/arc_utilities/filesystem_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index fa341d9..0def0c7 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -65,7 +65,7 @@ def count_files_recursive(path):
     count = 0
     path = pathlib.Path(path)
     for child in path.iterdir():
-        if child.is_dir():
+        if child.is_dir() and not child.is_symlink():
             count += count_files_recursive(child)
         else:
             count += 1
-- 
2.43.0


From 96512eefc22b4cefd13594db52dad0a224bb5388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 40/62] fix: ask_to_remove_directories deletes what it listed
 also when given a generator

---
 src/arc_utilities/filesystem_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index 0def0c7..51597d7 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -46,6 +46,7 @@ def append_str_to_path(p: pathlib.Path, s: str):
 
 
 def ask_to_remove_directories(directories_to_remove: Iterable[pathlib.Path]):
+    directories_to_remove = list(directories_to_remove)  # iterated twice
     print("Ok to delete these directories?")
     for d in directories_to_remove:
         print(d.as_posix())
-- 
2.43.0


From 29071958374325b3e13bab867d83719dba52920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 41/62] fix: rm_tree removes symbolic links instead of
 following or failing on them

---
 src/arc_utilities/filesystem_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index 51597d7..e9125b1 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -75,11 +75,14 @@ def count_files_recursive(path):
 
 def rm_tree(path):
     path = pathlib.Path(path)
+    if path.is_symlink():
+        path.unlink()  # never follow links out of the tree
+        return
     for child in path.glob('*'):
-        if child.is_file():
-            child.unlink()
-        else:
+        if child.is_dir():
             rm_tree(child)
+        else:
+            child.unlink()
     path.rmdir()
 
 
-- 
2.43.0


From 36c6c9f098038cec6f9614794ec9219796e8542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 42/62] fix: a listener knows its callback before messages can
 arrive

---
 src/arc_utilities/listener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/listener.py b/src/arc_utilities/listener.py
index de32672..84df8f1 100644
--- a/src/arc_utilities/listener.py
+++ b/src/arc_utilities/listener.py
@@ -25,8 +25,8 @@ class Listener:
         self.lock = Lock()
 
         self.topic_name = topic_name
+        self.custom_callback = callback  # needed as soon as the subscriber exists
         self.subscriber = rospy.Subscriber(topic_name, topic_type, self.callback, queue_size=queue_size)
-        self.custom_callback = callback
         self.get(wait_for_data)
 
     def callback(self, msg):
-- 
2.43.0


From ecf4acb05e10ad7687270f15b326df289772c298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 43/62] fix: static transforms are sent with the latest one of
 each frame only

---
 src/arc_utilities/tf2wrapper.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/arc_utilities/tf2wrapper.py b/src/arc_utilities/tf2wrapper.py
index 3a293e8..31a290e 100644
--- a/src/arc_utilities/tf2wrapper.py
+++ b/src/arc_utilities/tf2wrapper.py
@@ -1,5 +1,7 @@
 #! /usr/bin/env python
 
+from threading import Lock
+
 import geometry_msgs.msg
 import rospy
 import tf2_ros
@@ -22,6 +24,7 @@ class TF2Wrapper:
         self.tf_broadcaster = tf2_ros.TransformBroadcaster()
         self.static_tf_broadcaster = tf2_ros.StaticTransformBroadcaster()
         self.static_tfs = []
+        self.static_tfs_lock = Lock()
 
     def get_transform(self,
                       parent,
@@ -88,6 +91,12 @@ class TF2Wrapper:
         [translation, quaternion] = transformation_helper.ExtractFromMatrix(transform)
         self.send_transform(translation, quaternion, parent, child, is_static, time)
 
+    def _send_static(self, t):
+        with self.static_tfs_lock:
+            # send all at once, with only the latest transform of each child frame.
+            self.static_tfs = [s for s in self.static_tfs if s.child_frame_id != t.child_frame_id] + [t]
+            self.static_tf_broadcaster.sendTransform(self.static_tfs)
+
     def send_transform_from_pose_msg(self, pose: Pose, parent, child, is_static=False, time=None):
         if time is None:
             time = rospy.Time.now()
@@ -102,8 +111,7 @@ class TF2Wrapper:
         t.transform.rotation = pose.orientation
 
         if is_static:
-            self.static_tfs.append(t)
-            self.static_tf_broadcaster.sendTransform(self.static_tfs)  # send all at once.
+            self._send_static(t)
         else:
             self.tf_broadcaster.sendTransform(t)
 
@@ -136,8 +144,7 @@ class TF2Wrapper:
         t.transform.rotation.w = quaternion[3]
 
         if is_static:
-            self.static_tfs.append(t)
-            self.static_tf_broadcaster.sendTransform(self.static_tfs) # send all at once.
+            self._send_static(t)
         else:
             self.tf_broadcaster.sendTransform(t)
 
-- 
2.43.0


From 2d8378fcd073231168b333da21812ea97fee36b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 44/62] fix: starting a transform goes on waiting while its
 look-up fails

---
 src/arc_utilities/reliable_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/reliable_tf.py b/src/arc_utilities/reliable_tf.py
index c8349c1..9d70405 100644
--- a/src/arc_utilities/reliable_tf.py
+++ b/src/arc_utilities/reliable_tf.py
@@ -105,7 +105,7 @@ class ReliableTF(TF2Wrapper):
         # block until the correct transform is received
         while True:
             received_transform = self.get_transform(parent, child, verbose=False)
-            if is_close_func(received_transform):
+            if received_transform is not None and is_close_func(received_transform):
                 break
 
     def stop_send(self, parent, child):
-- 
2.43.0


From 4986c4617703d65f17a2806093dd4630e1e37bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 45/62] fix: a publisher to which further subscribers connected
 counts as connected

---
 src/arc_utilities/ros_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/ros_helpers.py b/src/arc_utilities/ros_helpers.py
index 272029e..4b03080 100644
--- a/src/arc_utilities/ros_helpers.py
+++ b/src/arc_utilities/ros_helpers.py
@@ -67,7 +67,7 @@ def get_connected_publisher(topic_path: str, data_class: Type, *args, **kwargs):
     num_subs = len(_get_subscribers(topic_path))
     for i in range(5):
         num_cons = pub.get_num_connections()
-        if num_cons == num_subs:
+        if num_cons >= num_subs:
             return pub
         time.sleep(0.05)
 
-- 
2.43.0


From c672aaadcfffcb17a2a5ff5dbb67eff794993082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 46/62] fix: the RRT planners compile

---
 include/arc_utilities/simple_rrt_planner.hpp | 48 +++++++++++---------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/include/arc_utilities/simple_rrt_planner.hpp b/include/arc_utilities/simple_rrt_planner.hpp
index 1aa7a55..6b13fe6 100644
--- a/include/arc_utilities/simple_rrt_planner.hpp
+++ b/include/arc_utilities/simple_rrt_planner.hpp
@@ -1,9 +1,13 @@
 #include <stdlib.h>
 
 #include <Eigen/Dense>
+#include <algorithm>
+#include <arc_utilities/arc_helpers.hpp>
 #include <arc_utilities/serialization.hpp>
 #include <chrono>
 #include <functional>
+#include <iostream>
+#include <map>
 #include <memory>
 #include <random>
 #include <stdexcept>
@@ -503,16 +507,16 @@ class SimpleHybridRRTPlanner {
    */
   template <typename T, typename Allocator = std::allocator<T>>
   static std::pair<std::vector<std::vector<T, Allocator>>, std::map<std::string, double>> PlanMultiPath(
-      std::vector<SimpleRRTPlannerState<StateType, StateAllocator>>& tree,
-      const std::function<int64_t(const std::vector<SimpleRRTPlannerState<StateType, StateAllocator>>&,
-                                  const SampleType&)>& nearest_neighbor_fn,
-      const std::function<void(std::vector<SimpleRRTPlannerState<StateType, StateAllocator>>&, const int64_t)>&
+      std::vector<SimpleRRTPlannerState<T, Allocator>>& tree,
+      const std::function<int64_t(const std::vector<SimpleRRTPlannerState<T, Allocator>>&,
+                                  const T&)>& nearest_neighbor_fn,
+      const std::function<void(std::vector<SimpleRRTPlannerState<T, Allocator>>&, const int64_t)>&
           state_added_fn,
-      const std::function<bool(const StateType&)>& goal_reached_fn,
-      const std::function<void(std::vector<SimpleRRTPlannerState<StateType, StateAllocator>>&, const int64_t)>&
+      const std::function<bool(const T&)>& goal_reached_fn,
+      const std::function<void(std::vector<SimpleRRTPlannerState<T, Allocator>>&, const int64_t)>&
           goal_reached_callback_fn,
-      const std::function<SampleType(void)>& sampling_fn,
-      const std::function<std::vector<std::pair<StateType, int64_t>>(const StateType&, const SampleType&)>&
+      const std::function<T(void)>& sampling_fn,
+      const std::function<std::vector<std::pair<T, int64_t>>(const T&, const T&)>&
           forward_propagation_fn,
       const std::function<bool(void)>& termination_check_fn) {
     // Make sure we've been given a start state
@@ -543,20 +547,20 @@ class SimpleHybridRRTPlanner {
     // Plan
     while (!termination_check_fn()) {
       // Sample a random goal
-      const StateType random_target = sampling_fn();
+      const T random_target = sampling_fn();
       // Get the nearest neighbor
-      const int64_t nearest_neighbor_index = nearest_neighbor_fn(nodes, random_target);
-      if (unlikely(nearest_neighbor_index < 0)) {
+      const int64_t nearest_neighbor_index = nearest_neighbor_fn(tree, random_target);
+      if (arc_unlikely(nearest_neighbor_index < 0)) {
         break;
       }
-      const T& nearest_neighbor = nodes.at(nearest_neighbor_index).GetValueImmutable();
+      const T& nearest_neighbor = tree.at(nearest_neighbor_index).GetValueImmutable();
       // Forward propagate towards the goal
-      std::vector<std::pair<StateType, int64_t>> propagated = forward_propagation_fn(nearest_neighbor, random_target);
+      std::vector<std::pair<T, int64_t>> propagated = forward_propagation_fn(nearest_neighbor, random_target);
       if (!propagated.empty()) {
         statistics["total_samples"] += 1.0;
         statistics["successful_samples"] += 1.0;
         for (size_t idx = 0; idx < propagated.size(); idx++) {
-          const std::pair<StateType, int64_t>& current_propagation = propagated[idx];
+          const std::pair<T, int64_t>& current_propagation = propagated[idx];
           // Determine the parent index of the new state
           // This process deserves some explanation
           // The "current relative parent index" is the index of the parent, relative to the list of propagated nodes.
@@ -581,9 +585,9 @@ class SimpleHybridRRTPlanner {
           const T& current_propagated = current_propagation.first;
           const SimpleRRTPlannerState<T, Allocator> new_state(current_propagated, node_parent_index);
           // Add the state to the tree
-          nodes.push_back(new_state);
-          const int64_t new_node_index = (int64_t)nodes.size() - 1;
-          nodes[node_parent_index].AddChildIndex(new_node_index);
+          tree.push_back(new_state);
+          const int64_t new_node_index = (int64_t)tree.size() - 1;
+          tree[node_parent_index].AddChildIndex(new_node_index);
           // Call the state added callback
           state_added_fn(tree, new_node_index);
           // Check if we've reached the goal
@@ -602,14 +606,14 @@ class SimpleHybridRRTPlanner {
     if (CheckTreeLinkage(tree) == false) {
       throw std::runtime_error("Tree linkage was corrupted during planning");
     }
-    const std::vector<std::vector<StateType, StateAllocator>> planned_paths =
+    const std::vector<std::vector<T, Allocator>> planned_paths =
         ExtractSolutionPaths(tree, goal_state_indices);
     const std::chrono::time_point<std::chrono::steady_clock> cur_time = std::chrono::steady_clock::now();
     const std::chrono::duration<double> planning_time(cur_time - start_time);
     statistics["planning_time"] = planning_time.count();
     statistics["total_states"] = tree.size();
     statistics["solutions"] = (double)planned_paths.size();
-    return std::pair<std::vector<std::vector<StateType, StateAllocator>>, std::map<std::string, double>>(planned_paths,
+    return std::pair<std::vector<std::vector<T, Allocator>>, std::map<std::string, double>>(planned_paths,
                                                                                                          statistics);
   }
 
@@ -817,8 +821,8 @@ class SimpleHybridBiRRTPlanner {
    * statistics - map of string keys/double values of planner statistics (i.e. run time, #states explored, #states in
    * solution
    */
-  template <typename T, typename Allocator = std::allocator<T>>
-  static std::pair<std::vector<std::vector<T>>, std::map<std::string, double>> PlanMultiPath(
+  template <typename RNG, typename T, typename Allocator = std::allocator<T>>
+  static std::pair<std::vector<std::vector<T, Allocator>>, std::map<std::string, double>> PlanMultiPath(
       const T& start, const T& goal,
       const std::function<int64_t(const std::vector<SimpleRRTPlannerState<T, Allocator>>&, const T&)>&
           nearest_neighbor_fn,
@@ -915,7 +919,7 @@ class SimpleHybridBiRRTPlanner {
           (sample_from_tree) ? target_tree.at(target_tree_node_index).GetValueImmutable() : state_sampling_fn();
       // Get the nearest neighbor
       const int64_t nearest_neighbor_index = nearest_neighbor_fn(active_tree, target_state);
-      if (unlikely(nearest_neighbor_index < 0)) {
+      if (arc_unlikely(nearest_neighbor_index < 0)) {
         break;
       }
       const StateType& nearest_neighbor = active_tree.at(nearest_neighbor_index).GetValueImmutable();
-- 
2.43.0


From ef739fa0e813f51b4bdd44fdd2ac29bb764c1923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 47/62] fix: a parent index beyond the tree is invalid linkage

---
 include/arc_utilities/simple_rrt_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_rrt_planner.hpp b/include/arc_utilities/simple_rrt_planner.hpp
index 6b13fe6..e849ce6 100644
--- a/include/arc_utilities/simple_rrt_planner.hpp
+++ b/include/arc_utilities/simple_rrt_planner.hpp
@@ -652,7 +652,7 @@ class SimpleHybridRRTPlanner {
                     << " [Indices can't be the same]" << std::endl;
           return false;
         }
-      } else if (parent_index < -1) {
+      } else if (parent_index != -1) {
         std::cerr << "Invalid parent index " << parent_index << " for state " << current_index << std::endl;
         return false;
       }
-- 
2.43.0


From 19228c3152cfa4ee9e4fc8c84a3e0bfc822777ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 48/62] fix: the planar and spatial robot models compile

---
 include/arc_utilities/simple_se2_robot_model.hpp | 5 +++--
 include/arc_utilities/simple_se3_robot_model.hpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/simple_se2_robot_model.hpp b/include/arc_utilities/simple_se2_robot_model.hpp
index 4640fea..36c7c0c 100644
--- a/include/arc_utilities/simple_se2_robot_model.hpp
+++ b/include/arc_utilities/simple_se2_robot_model.hpp
@@ -4,6 +4,7 @@
 #include <arc_utilities/arc_helpers.hpp>
 #include <arc_utilities/eigen_helpers.hpp>
 #include <arc_utilities/pretty_print.hpp>
+#include <arc_utilities/serialization_eigen.hpp>
 #include <arc_utilities/simple_robot_model_interface.hpp>
 #include <map>
 #include <random>
@@ -21,12 +22,12 @@ class SimpleSE2ConfigSerializer {
   static inline std::string TypeName() { return std::string("EigenMatrixD31Serializer"); }
 
   static inline uint64_t Serialize(const SimpleSE2Configuration& value, std::vector<uint8_t>& buffer) {
-    return EigenHelpers::Serialize(value, buffer);
+    return arc_utilities::SerializeEigen(value, buffer);
   }
 
   static inline std::pair<SimpleSE2Configuration, uint64_t> Deserialize(const std::vector<uint8_t>& buffer,
                                                                         const uint64_t current) {
-    return EigenHelpers::Deserialize<Eigen::Matrix<double, 3, 1>>(buffer, current);
+    return arc_utilities::DeserializeEigen<Eigen::Matrix<double, 3, 1>>(buffer, current);
   }
 };
 
diff --git a/include/arc_utilities/simple_se3_robot_model.hpp b/include/arc_utilities/simple_se3_robot_model.hpp
index ae153ad..0c2491d 100644
--- a/include/arc_utilities/simple_se3_robot_model.hpp
+++ b/include/arc_utilities/simple_se3_robot_model.hpp
@@ -4,6 +4,7 @@
 #include <arc_utilities/arc_helpers.hpp>
 #include <arc_utilities/eigen_helpers.hpp>
 #include <arc_utilities/pretty_print.hpp>
+#include <arc_utilities/serialization_eigen.hpp>
 #include <arc_utilities/simple_robot_model_interface.hpp>
 #include <map>
 #include <random>
@@ -21,12 +22,12 @@ class SimpleSE3ConfigSerializer {
   static inline std::string TypeName() { return std::string("EigenIsometry3dSerializer"); }
 
   static inline uint64_t Serialize(const SimpleSE3Configuration& value, std::vector<uint8_t>& buffer) {
-    return EigenHelpers::Serialize(value, buffer);
+    return arc_utilities::SerializeEigen(value, buffer);
   }
 
   static inline std::pair<SimpleSE3Configuration, uint64_t> Deserialize(const std::vector<uint8_t>& buffer,
                                                                         const uint64_t current) {
-    return EigenHelpers::Deserialize<Eigen::Isometry3d>(buffer, current);
+    return arc_utilities::DeserializeEigen<Eigen::Isometry3d>(buffer, current);
   }
 };
 
-- 
2.43.0


From f4d4f32d9a431b162c36e7477b1a87da0b02fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 49/62] fix: the robot models with geometry include what they
 use

---
 include/arc_utilities/simple_robot_models.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/simple_robot_models.hpp b/include/arc_utilities/simple_robot_models.hpp
index 71f50ed..a7c4234 100644
--- a/include/arc_utilities/simple_robot_models.hpp
+++ b/include/arc_utilities/simple_robot_models.hpp
@@ -9,6 +9,7 @@
 #include <arc_utilities/simple_se2_robot_model.hpp>
 #include <arc_utilities/simple_se3_robot_model.hpp>
 #include <map>
+#include <memory>
 #include <random>
 #include <vector>
 
-- 
2.43.0


From 9011cd849d411626b821ad5f2606ecb1a65d40cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 50/62] fix: InvertMatrix calls numpy's inverse

---
 src/arc_utilities/transformation_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/transformation_helper.py b/src/arc_utilities/transformation_helper.py
index 1d81eea..a27a6c6 100644
--- a/src/arc_utilities/transformation_helper.py
+++ b/src/arc_utilities/transformation_helper.py
@@ -152,7 +152,7 @@ def ComposeMatrices(matrix1, matrix2):
 
 
 def InvertMatrix(old_matrix):
-    return np.np.linalg.inv(old_matrix)
+    return np.linalg.inv(old_matrix)
 
 
 def ComposeQuaternions(q1, q2):
-- 
2.43.0


From 020edadec9ce79f2dc0d17f1984058cd08146baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 51/62] fix: AngleBetweenQuaternionsRos takes the dot product
 over all four components

---
 src/arc_utilities/transformation_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/transformation_helper.py b/src/arc_utilities/transformation_helper.py
index a27a6c6..f80ffec 100644
--- a/src/arc_utilities/transformation_helper.py
+++ b/src/arc_utilities/transformation_helper.py
@@ -211,7 +211,7 @@ def AngleBetweenQuaternions(q1, q2):
 def AngleBetweenQuaternionsRos(q1, q2):
     nq1 = NormalizeQuaternionRos(q1)
     nq2 = NormalizeQuaternionRos(q2)
-    dot_product = abs(nq1.x * nq2.x + nq1.y * nq2.y + nq1.z * nq2.z + nq1.z * nq2.w)
+    dot_product = abs(nq1.x * nq2.x + nq1.y * nq2.y + nq1.z * nq2.z + nq1.w * nq2.w)
     if dot_product < 0.9999:
         return np.arccos(2.0 * (dot_product ** 2) - 1.0)
     else:
-- 
2.43.0


From 278c87162808776b83fea8037f3e66e06b5d0072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 52/62] fix: BuildMatrixFromDH translates by the link length

---
 src/arc_utilities/transformation_helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arc_utilities/transformation_helper.py b/src/arc_utilities/transformation_helper.py
index f80ffec..db53950 100644
--- a/src/arc_utilities/transformation_helper.py
+++ b/src/arc_utilities/transformation_helper.py
@@ -393,8 +393,8 @@ def BuildMatrixFromTransRot(trans, rot):
 def BuildMatrixFromDH(d, a, theta, alpha):
     # Do math here
     tfmatrix = np.array([
-        [cos(theta), -sin(theta) * cos(alpha), sin(theta) * sin(alpha), alpha * cos(theta)],
-        [sin(theta), cos(theta) * cos(alpha), -cos(theta) * sin(alpha), alpha * sin(theta)],
+        [cos(theta), -sin(theta) * cos(alpha), sin(theta) * sin(alpha), a * cos(theta)],
+        [sin(theta), cos(theta) * cos(alpha), -cos(theta) * sin(alpha), a * sin(theta)],
         [0.0, sin(alpha), cos(alpha), d], [0.0, 0.0, 0.0, 1.0]])
     return tfmatrix
 
-- 
2.43.0


From 6a0162c840ec5749cbdd3dff2105994b42b4e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 53/62] fix: normalize_quaternion accepts a list

---
 src/arc_utilities/conversions.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/arc_utilities/conversions.py b/src/arc_utilities/conversions.py
index 0753c71..df40e62 100644
--- a/src/arc_utilities/conversions.py
+++ b/src/arc_utilities/conversions.py
@@ -39,11 +39,7 @@ def normalize_quaternion(quaternion: Union[List[int], Quaternion]):
         return quaternion
     elif isinstance(quaternion, list):
         norm = np.linalg.norm(np.array(quaternion))
-        quaternion.x = quaternion.x / norm
-        quaternion.y = quaternion.y / norm
-        quaternion.z = quaternion.z / norm
-        quaternion.w = quaternion.w / norm
-        return quaternion
+        return [q / norm for q in quaternion]
     else:
         raise NotImplementedError()
 
-- 
2.43.0


From 7bda515b2cae417c464f4719e438e9f09b5492e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 54/62] fix: the hot end of interpolate_hot_to_cold depends on
 the value

---
 src/arc_utilities/color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/color.py b/src/arc_utilities/color.py
index c6e392e..aec8c69 100644
--- a/src/arc_utilities/color.py
+++ b/src/arc_utilities/color.py
@@ -202,7 +202,7 @@ def interpolate_hot_to_cold(value, min_value=0.0, max_value=1.0):
         r = 4 * (value - min_value - 0.5 * val_range) / val_range
         b = 0.0
     else:
-        g = 1.0 + 4.0 * (min_value + 0.75 * val_range - min_value) / val_range
+        g = 1.0 + 4.0 * (min_value + 0.75 * val_range - value) / val_range
         b = 0.0
     return [r, g, b]
 
-- 
2.43.0


From 5c8ceac32c1caffafb168970170f96987924fa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 55/62] fix: the reference white has the scale of the XYZ
 values, and is applied on the way back from Lab

---
 src/arc_utilities/color.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/arc_utilities/color.py b/src/arc_utilities/color.py
index aec8c69..4e3660c 100644
--- a/src/arc_utilities/color.py
+++ b/src/arc_utilities/color.py
@@ -38,9 +38,9 @@ def cielab_finv(val):
 
 
 def get_ref_xyz():
-    xref = 95.047
-    yref = 100.0
-    zref = 108.883
+    xref = 0.95047
+    yref = 1.0
+    zref = 1.08883
     return [xref, yref, zref]
 
 
@@ -53,10 +53,11 @@ def convert_xyz_to_lab(x, y, z):
 
 
 def convert_lab_to_xyz(l, a, b):
+    [xref, yref, zref] = get_ref_xyz()
     intermediate = (l + 16.0) * (1.0 / 116.0)
-    x = cielab_finv(intermediate + a * (1.0 / 500.0))
-    y = cielab_finv(intermediate)
-    z = cielab_finv(intermediate - b * (1.0 / 200.0))
+    x = xref * cielab_finv(intermediate + a * (1.0 / 500.0))
+    y = yref * cielab_finv(intermediate)
+    z = zref * cielab_finv(intermediate - b * (1.0 / 200.0))
     return [x, y, z]
 
 
-- 
2.43.0


From 594bff1fa70f25d3a12ea13c8ed94ba7a1c54352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 56/62] fix: hues cover the full circle, and black has one

---
 src/arc_utilities/color.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/arc_utilities/color.py b/src/arc_utilities/color.py
index 4e3660c..e8f025a 100644
--- a/src/arc_utilities/color.py
+++ b/src/arc_utilities/color.py
@@ -63,9 +63,8 @@ def convert_lab_to_xyz(l, a, b):
 
 def convert_lab_to_msh(l, a, b):
     m = math.sqrt(l ** 2 + a ** 2 + b ** 2)
-    s = math.acos(l / m)
-    # h = math.atan2(b, a)
-    h = math.atan(b / a)
+    s = math.acos(l / m) if m > 0.0 else 0.0
+    h = math.atan2(b, a)
     return [m, s, h]
 
 
-- 
2.43.0


From 733642f30600a841a72323e9c753b0d7060bfef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:00 +0000
Subject: [PATCH 57/62] fix: writing a ROS message does not read past the end
 of its serialized form

---
 include/arc_utilities/serialization_ros.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/arc_utilities/serialization_ros.hpp b/include/arc_utilities/serialization_ros.hpp
index abfdfd2..f15eaa7 100644
--- a/include/arc_utilities/serialization_ros.hpp
+++ b/include/arc_utilities/serialization_ros.hpp
@@ -201,18 +201,19 @@ inline std::pair<geometry_msgs::TransformStamped, uint64_t> DeserializeTransform
 template <typename MessageType>
 inline uint64_t RosMessageSerializationWrapper(const MessageType& message, std::vector<uint8_t>& buffer) {
   const ros::SerializedMessage serialized_message = ros::serialization::serializeMessage(message);
-  buffer.insert(buffer.end(), serialized_message.message_start,
-                serialized_message.message_start + serialized_message.num_bytes);
+  // num_bytes counts the length marker that serializeMessage(...) puts at the start of its buffer
+  buffer.insert(buffer.end(), serialized_message.buf.get(),
+                serialized_message.buf.get() + serialized_message.num_bytes);
   return serialized_message.num_bytes;
 }
 
 template <typename MessageType>
 inline std::pair<MessageType, uint64_t> RosMessageDeserializationWrapper(const std::vector<uint8_t>& buffer,
                                                                          const uint64_t current) {
-  // Convert the input buffer into the ROS/Boost format
-  const auto size_left = buffer.size() - current;
+  // Convert the input buffer into the ROS/Boost format, starting after the length marker
+  const auto size_left = buffer.size() - current - 4;
   boost::shared_array<uint8_t> boost_buffer(new uint8_t[size_left]);
-  std::memcpy(boost_buffer.get(), &buffer[current], size_left);
+  std::memcpy(boost_buffer.get(), buffer.data() + current + 4, size_left);
   const ros::SerializedMessage serialize_message(boost_buffer, size_left);
 
   // Perform the actual deserialization
-- 
2.43.0


From 597b690ef578bf98b4e370992ae0bda68eebc725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 58/62] fix: compare all joint names when appending a
 trajectory, within bounds

---
 src/arc_utilities/trajectory_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/trajectory_utils.cpp b/src/arc_utilities/trajectory_utils.cpp
index f8feefd..97ff2f7 100644
--- a/src/arc_utilities/trajectory_utils.cpp
+++ b/src/arc_utilities/trajectory_utils.cpp
@@ -8,7 +8,7 @@ void append(trajectory_msgs::JointTrajectory &trajectory1, trajectory_msgs::Join
   if (trajectory1.joint_names.empty()) {
     trajectory1.joint_names = trajectory2.joint_names;
   } else if (not std::equal(trajectory1.joint_names.cbegin(), trajectory1.joint_names.cend(),
-                            trajectory2.joint_names.cbegin())) {
+                            trajectory2.joint_names.cbegin(), trajectory2.joint_names.cend())) {
     ROS_ERROR_STREAM("Tried to append trajectory but the joint names differ");
     ROS_ERROR_STREAM("joint 1 names:");
     for (auto const &name1 : trajectory1.joint_names) {
-- 
2.43.0


From bc56c43ac23e6ed82e4114fad6f23d4dec3c288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 59/62] fix: keep the fourth component of aligned vectors at
 one through in-place operations

---
 include/arc_utilities/aligned_eigen_types.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/aligned_eigen_types.hpp b/include/arc_utilities/aligned_eigen_types.hpp
index 4e3dc0f..0f022d1 100644
--- a/include/arc_utilities/aligned_eigen_types.hpp
+++ b/include/arc_utilities/aligned_eigen_types.hpp
@@ -115,6 +115,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
 
   inline Aligned4Vector3& operator+=(const Aligned4Vector3& other) {
     m_coeffs += other.m_coeffs;
+    m_coeffs.w() = Scalar(1);
     return *this;
   }
 
@@ -124,6 +125,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
 
   inline Aligned4Vector3 operator-=(const Aligned4Vector3& other) {
     m_coeffs -= other.m_coeffs;
+    m_coeffs.w() = Scalar(1);
     return *this;
   }
 
@@ -135,6 +137,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
 
   inline Aligned4Vector3& operator*=(const Scalar& s) {
     m_coeffs *= s;
+    m_coeffs.w() = Scalar(1);
     return *this;
   }
 
@@ -142,6 +145,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
 
   inline Aligned4Vector3& operator/=(const Scalar& s) {
     m_coeffs /= s;
+    m_coeffs.w() = Scalar(1);
     return *this;
   }
 
@@ -151,7 +155,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
     return m_coeffs.dot(other.m_coeffs) - Scalar(1);
   }
 
-  inline void normalize() { m_coeffs /= norm(); }
+  inline void normalize() { *this /= norm(); }
 
   inline Aligned4Vector3 normalized() const { return Aligned4Vector3(m_coeffs / norm()); }
 
-- 
2.43.0


From bdbdce433f268b8b0641f76bab0e177d799d2138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:21 +0000
Subject: [PATCH 60/62] fix: printing a forward list compiles

---
 include/arc_utilities/pretty_print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/pretty_print.hpp b/include/arc_utilities/pretty_print.hpp
index 15d6c76..79547f2 100644
--- a/include/arc_utilities/pretty_print.hpp
+++ b/include/arc_utilities/pretty_print.hpp
@@ -345,7 +345,7 @@ template <typename T, typename Allocator>
 inline std::string PrettyPrint(const std::forward_list<T, Allocator>& listtoprint, const bool add_delimiters,
                                const std::string& separator) {
   std::ostringstream strm;
-  if (listtoprint.size() > 0) {
+  if (!listtoprint.empty()) {
     if (add_delimiters) {
       strm << "[";
       typename std::forward_list<T, Allocator>::const_iterator itr;
-- 
2.43.0


From 032937d4b97e41d35afd6651968975427b0cf5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:21 +0000
Subject: [PATCH 61/62] fix: hash.hpp compiles on its own

---
 include/arc_utilities/hash.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/arc_utilities/hash.hpp b/include/arc_utilities/hash.hpp
index c9ccc68..0746aaf 100644
--- a/include/arc_utilities/hash.hpp
+++ b/include/arc_utilities/hash.hpp
@@ -1,6 +1,14 @@
 #ifndef ARC_UTILITIES_HASH_HPP
 #define ARC_UTILITIES_HASH_HPP
 
+#include <sys/types.h>
+
+#include <Eigen/Core>
+#include <complex>
+#include <cstddef>
+#include <functional>
+#include <utility>
+
 // http://stackoverflow.com/questions/2590677/how-do-i-combine-hash-values-in-c0x
 template <class T>
 inline void hash_combine(std::size_t& seed, const T& v) {
-- 
2.43.0


From 454166f281a37c7ecf09e899de17bcc1054f990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 62/62] fix: a chunk keeps locations that rounding puts on or
 just across its faces

With cell sizes such as 0.02 a location of a chunk could be computed to lie on its far face or slightly before its near
face; such writes were dropped (NOT_SET) and reads reported NOT_FOUND.
---
 .../dynamic_spatial_hashed_voxel_grid.hpp     | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index a892645..0ff0eb8 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -133,24 +133,28 @@ class DynamicSpatialHashedVoxelGridChunk {
 
   inline int64_t GetLocationDataIndex(const Eigen::Vector3d& location) const {
     Eigen::Vector3d location_in_chunk = location - region_.base;
-    // First, make sure the location is in the range this chunk covers
-    if (location_in_chunk.x() < 0.0 || location_in_chunk.y() < 0.0 || location_in_chunk.z() < 0.0) {
+    // First, make sure the location is in the range this chunk covers (up to rounding: a location that belongs to this
+    // chunk may be computed to lie on or just across one of its faces)
+    const double x_tolerance = 1e-6 * cell_x_size_;
+    const double y_tolerance = 1e-6 * cell_y_size_;
+    const double z_tolerance = 1e-6 * cell_z_size_;
+    if (location_in_chunk.x() < -x_tolerance || location_in_chunk.y() < -y_tolerance ||
+        location_in_chunk.z() < -z_tolerance) {
       return -1;
-    } else if (location_in_chunk.x() > chunk_x_size_ || location_in_chunk.y() > chunk_y_size_ ||
-               location_in_chunk.z() > chunk_z_size_) {
+    } else if (location_in_chunk.x() > chunk_x_size_ + x_tolerance ||
+               location_in_chunk.y() > chunk_y_size_ + y_tolerance ||
+               location_in_chunk.z() > chunk_z_size_ + z_tolerance) {
       return -1;
     }
     // Ok, we're inside the chunk
     else {
-      int64_t x_cell = (int64_t)(location_in_chunk.x() / cell_x_size_);
-      int64_t y_cell = (int64_t)(location_in_chunk.y() / cell_y_size_);
-      int64_t z_cell = (int64_t)(location_in_chunk.z() / cell_z_size_);
-      if (x_cell < 0 || y_cell < 0 || z_cell < 0 || x_cell >= num_x_cells_ || y_cell >= num_y_cells_ ||
-          z_cell >= num_z_cells_) {
-        return -1;
-      } else {
-        return GetDataIndex(x_cell, y_cell, z_cell);
-      }
+      const int64_t x_cell =
+          arc_helpers::ClampValue((int64_t)(location_in_chunk.x() / cell_x_size_), (int64_t)0, num_x_cells_ - 1);
+      const int64_t y_cell =
+          arc_helpers::ClampValue((int64_t)(location_in_chunk.y() / cell_y_size_), (int64_t)0, num_y_cells_ - 1);
+      const int64_t z_cell =
+          arc_helpers::ClampValue((int64_t)(location_in_chunk.z() / cell_z_size_), (int64_t)0, num_z_cells_ - 1);
+      return GetDataIndex(x_cell, y_cell, z_cell);
     }
   }
 
-- 
2.43.0

