From d3788135abd3f902e111a76284d8cc55474199be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 01/13] fix: hash equal line segments equally whatever their
 direction

---
 .../code/types/line_segment/line_segment.cpp                | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp b/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
index 7eb4214..e61130b 100644
--- a/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
@@ -2,6 +2,7 @@
 // Created by James.Balajan on 31/03/2021.
 //
 
+#include <algorithm>
 #include <s2/s2point.h>
 #include <stdexcept>
 
@@ -138,5 +139,8 @@ S2Polyline *LineSegment::to_s2_polyline() const {
 std::size_t std::hash<LineSegment>::operator()(const LineSegment &segment) const {
     const std::size_t coord_1_hash = hash<Coordinate>()(segment.get_endpoint_1());
     const std::size_t coord_2_hash = hash<Coordinate>()(segment.get_endpoint_2());
-    return coord_1_hash ^ (coord_2_hash + 0x9e3779b9 + (coord_1_hash << 6) + (coord_1_hash >> 2));
+    // Equality ignores the direction of the segment, so the hash has to as well
+    const std::size_t low_hash = std::min(coord_1_hash, coord_2_hash);
+    const std::size_t high_hash = std::max(coord_1_hash, coord_2_hash);
+    return low_hash ^ (high_hash + 0x9e3779b9 + (low_hash << 6) + (low_hash >> 2));
 }
-- 
2.43.0


From 94f81c89c60f4c28626d11c3fe6739ad5344056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 02/13] fix: do not order the observer before itself when
 sorting by angle

---
 .../visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp b/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
index b5be354..689d55d 100644
--- a/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
+++ b/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
@@ -14,7 +14,7 @@ void AngleSorter::sort_counter_clockwise_around_observer(const Coordinate &obser
 
     const auto cmp = [&](const Coordinate &c1, const Coordinate &c2) -> bool {
         if (c1 == observer) {
-            return true;
+            return c2 != observer;
         } else if (c2 == observer) {
             return false;
         }
-- 
2.43.0


From 25cf90dc34d1f65f8e1a390157783cdbd3373550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 03/13] fix: store directed edges in the row that get_neighbors
 reads

---
 .../visibility_graphs/code/datastructures/graph/graph.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index d39e503..5e9bfbb 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -64,7 +64,7 @@ void Graph::add_directed_edge(const Coordinate &a, const Coordinate &b, bool mer
         a_lock.lock();
     }
 
-    size_t index = a_index + (_num_coords * b_index);
+    size_t index = (a_index * _num_coords) + b_index;
     _neighbors[index] = static_cast<EdgeState>(
             _neighbors[index] |
             ((meridian_crossing) ? EdgeState::CONNECTED_OVER_MERIDIAN : EdgeState::CONNECTED));
@@ -98,7 +98,7 @@ void Graph::remove_directed_edge(const Coordinate &a, const Coordinate &b) {
         a_lock.lock();
     }
 
-    size_t index = a_index + (_num_coords * b_index);
+    size_t index = (a_index * _num_coords) + b_index;
     _neighbors[index] = EdgeState::DISCONNECTED;
 }
 
@@ -125,7 +125,7 @@ bool Graph::has_edge(const Coordinate &a, const Coordinate &b) const {
         a_lock.lock();
     }
 
-    size_t index = a_index + (_num_coords * b_index);
+    size_t index = (a_index * _num_coords) + b_index;
     return _neighbors[index] != EdgeState::DISCONNECTED;
 }
 
@@ -156,7 +156,7 @@ bool Graph::is_edge_meridian_crossing(const Coordinate &a, const Coordinate &b)
         a_lock.lock();
     }
 
-    size_t index = a_index + (_num_coords * b_index);
+    size_t index = (a_index * _num_coords) + b_index;
     return _neighbors[index] == EdgeState::CONNECTED_OVER_MERIDIAN;
 }
 
-- 
2.43.0


From c7ff8815d0065fad977a432830af448b1a14b844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 04/13] fix: keep the existing edges of a graph when adding a
 vertex

---
 .../code/datastructures/graph/graph.cpp           | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index 5e9bfbb..ebb1551 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -215,9 +215,24 @@ std::vector<Coordinate> Graph::get_vertices() const { return _index_to_coordinat
 std::vector<Polygon> Graph::get_polygons() const { return _polygons; }
 
 void Graph::add_vertex(const Coordinate &vertex) {
+    if (has_vertex(vertex)) {
+        return;
+    }
+
     _coordinate_to_index_mapping[vertex] = _num_coords;
     _index_to_coordinate_mapping.push_back(vertex);
 
+    // Every row of the adjacency matrix grows by one column, and then one empty row is added
+    std::vector<EdgeState> neighbors;
+    neighbors.reserve((_num_coords + 1) * (_num_coords + 1));
+    for (size_t row = 0; row < _num_coords; ++row) {
+        for (size_t column = 0; column < _num_coords; ++column) {
+            neighbors.push_back(_neighbors[(row * _num_coords) + column]);
+        }
+        neighbors.push_back(EdgeState::DISCONNECTED);
+    }
+    _neighbors = std::move(neighbors);
+
     ++_num_coords;
     _neighbors.resize(_num_coords*_num_coords, EdgeState::DISCONNECTED);
     _accessor_locks.push_back(std::make_unique<std::shared_mutex>());
-- 
2.43.0


From e8b84e027e6975c4a0456198f3c16941829b133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 05/13] fix: let a modified graph be queried about its own
 vertices and edges

---
 .../modified_graph/modified_graph.cpp         | 35 +++++++++++++------
 .../modified_graph/modified_graph.hpp         |  2 ++
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
index cbd8e0a..1e3da74 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
@@ -22,14 +22,15 @@ void ModifiedGraph::add_directed_edge(const Coordinate &a, const Coordinate &b,
 
     if (_neighbors[a].find(b) == _neighbors[a].end()) {
         _neighbors[a][b] = NeighborInfo {
-            .is_meridian_crossing = meridian_crossing && (!_graph->has_edge(a, b) || _graph->is_edge_meridian_crossing(a, b)),
+            .is_meridian_crossing = meridian_crossing && (!base_has_edge(a, b) || _graph->is_edge_meridian_crossing(a, b)),
             .relationship = NeighborRelationship::EDGE_PRESENT
         };
     } else {
         const auto& curr_neighbor = _neighbors[a][b];
 
         _neighbors[a][b] = NeighborInfo {
-            .is_meridian_crossing = meridian_crossing && curr_neighbor.is_meridian_crossing,
+            .is_meridian_crossing = meridian_crossing && (curr_neighbor.relationship == NeighborRelationship::EDGE_REMOVED ||
+                                                          curr_neighbor.is_meridian_crossing),
             .relationship = NeighborRelationship::EDGE_PRESENT,
         };
     }
@@ -63,32 +64,42 @@ bool ModifiedGraph::has_vertex(const Coordinate &vertex) const {
 
 bool ModifiedGraph::has_edge(const Coordinate &a, const Coordinate &b) const {
     if (_neighbors.find(a) == _neighbors.end() || _neighbors.at(a).find(b) == _neighbors.at(a).end()) {
-        return _graph->has_edge(a, b);
+        return base_has_edge(a, b);
     }
 
     return _neighbors.at(a).at(b).relationship == NeighborRelationship::EDGE_PRESENT;
 }
 
+bool ModifiedGraph::base_has_edge(const Coordinate &a, const Coordinate &b) const {
+    return _graph->has_vertex(a) && _graph->has_vertex(b) && _graph->has_edge(a, b);
+}
+
 bool ModifiedGraph::is_edge_meridian_crossing(const Coordinate &a, const Coordinate &b) const {
     if (_neighbors.find(a) == _neighbors.end() || _neighbors.at(a).find(b) == _neighbors.at(a).end()) {
-        return _graph->is_edge_meridian_crossing(a, b);
+        return base_has_edge(a, b) && _graph->is_edge_meridian_crossing(a, b);
     }
 
     return _neighbors.at(a).at(b).is_meridian_crossing;
 }
 
 std::vector<Coordinate> ModifiedGraph::get_neighbors(const Coordinate &vertex) const {
-    auto neighbors = _graph->has_vertex(vertex) ? _graph->get_neighbors(vertex) : std::vector<Coordinate>();
+    const auto base_neighbors = _graph->has_vertex(vertex) ? _graph->get_neighbors(vertex) : std::vector<Coordinate>();
+
     if (_neighbors.find(vertex) == _neighbors.end()) {
-        return neighbors;
+        return base_neighbors;
     }
 
-    neighbors.reserve(_neighbors.at(vertex).size() + neighbors.size());
-    for (const auto& neighbor : _neighbors.at(vertex)) {
+    const auto &modified_neighbors = _neighbors.at(vertex);
+    auto neighbors = std::vector<Coordinate>();
+    neighbors.reserve(modified_neighbors.size() + base_neighbors.size());
+    for (const auto &neighbor : base_neighbors) {
+        if (modified_neighbors.find(neighbor) == modified_neighbors.end()) {
+            neighbors.push_back(neighbor);
+        }
+    }
+    for (const auto &neighbor : modified_neighbors) {
         if (neighbor.second.relationship == NeighborRelationship::EDGE_PRESENT) {
             neighbors.push_back(neighbor.first);
-        } else if (neighbor.second.relationship == NeighborRelationship::EDGE_REMOVED) {
-            neighbors.erase(std::remove(neighbors.begin(), neighbors.end(), neighbor.first), neighbors.end());
         }
     }
 
@@ -100,7 +111,9 @@ std::vector<Coordinate> ModifiedGraph::get_vertices() const {
     base_vertices.reserve(base_vertices.size() + _neighbors.size());
 
     for (const auto& neighbor : _neighbors) {
-        base_vertices.push_back(neighbor.first);
+        if (!_graph->has_vertex(neighbor.first)) {
+            base_vertices.push_back(neighbor.first);
+        }
     }
 
     return base_vertices;
diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp
index ad5cbfb..06c20a2 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp
@@ -46,6 +46,8 @@ class ModifiedGraph : public IGraph {
         [[nodiscard]] std::vector<Coordinate> get_vertices() const override;
         [[nodiscard]] std::vector<Polygon> get_polygons() const override;
     private:
+        [[nodiscard]] bool base_has_edge(const Coordinate &a, const Coordinate &b) const;
+
         std::shared_ptr<IGraph> _graph;
         std::unordered_map<Coordinate, std::unordered_map<Coordinate, NeighborInfo>> _neighbors;
 };
-- 
2.43.0


From a1981288e8c67f18a5771108900266274f56a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 06/13] fix: report truncated or corrupt graph files instead of
 reading past their end

---
 .../code/serialization/graph_serializer.cpp      | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index f7a6dc7..4df28b0 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -149,6 +149,11 @@ size_t GraphSerializer::serialize_adjacency_matrix_to_mmap(mio::mmap_sink &mmap,
 
 size_t GraphSerializer::deserialize_polygon_vertices_from_mmap(const mio::mmap_source &mmap, std::shared_ptr<Graph> &graph,
                                                                uint64_t num_polygons, size_t offset) {
+    // Every polygon takes up at least one byte, so a larger count cannot be genuine
+    if (num_polygons > mmap.size()) {
+        throw std::runtime_error("Graph file is truncated or corrupt");
+    }
+
     auto polygons = std::vector<Polygon>(num_polygons);
 
     size_t curr_offset = offset;
@@ -156,6 +161,10 @@ size_t GraphSerializer::deserialize_polygon_vertices_from_mmap(const mio::mmap_s
         auto num_vertices = deserialize_8_bytes_from_mmap(mmap, curr_offset);
         curr_offset += sizeof(num_vertices);
 
+        if (num_vertices > mmap.size()) {
+            throw std::runtime_error("Graph file is truncated or corrupt");
+        }
+
         auto vertices = std::vector<Coordinate>(num_vertices);
         for (size_t j = 0; j < num_vertices; ++j) {
             const auto longitude_offset = curr_offset + (j * 2 * sizeof(int32_t));
@@ -293,7 +302,12 @@ inline int32_t deserialize_4_signed_bytes_from_mmap(const mio::mmap_source &mmap
     return val;
 }
 
-inline uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset) { return mmap[offset]; }
+inline uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset) {
+    if (offset >= mmap.size()) {
+        throw std::runtime_error("Graph file is truncated or corrupt");
+    }
+    return mmap[offset];
+}
 
 inline void allocate_file(const std::string &path, size_t num_bytes) {
     const auto handle_allocation_error = [&]() {
-- 
2.43.0


From f3774caa998ee36b1c0a4b7fb06fb04cbdb07938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 07/13] fix: do not keep stale bytes when overwriting a graph
 file

---
 .../visibility_graphs/code/serialization/graph_serializer.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index 4df28b0..aa2fa65 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -319,7 +319,7 @@ inline void allocate_file(const std::string &path, size_t num_bytes) {
         throw std::runtime_error(error);
     };
 
-    const auto fd = open(path.c_str(), O_CREAT | O_RDWR, S_IROTH | S_IWOTH | S_IRGRP | S_IWGRP | S_IRWXU);
+    const auto fd = open(path.c_str(), O_CREAT | O_RDWR | O_TRUNC, S_IROTH | S_IWOTH | S_IRGRP | S_IWGRP | S_IRWXU);
     if (fd == -1) {
         handle_allocation_error();
     }
-- 
2.43.0


From bb3d6d887010ed99eb04402a57c1dc62bbe245b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 08/13] fix: close the graph file when it cannot be resized

---
 .../visibility_graphs/code/serialization/graph_serializer.cpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index aa2fa65..14f85c0 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -324,6 +324,9 @@ inline void allocate_file(const std::string &path, size_t num_bytes) {
         handle_allocation_error();
     }
     if (ftruncate(fd, num_bytes) != 0) {
+        const auto ftruncate_errno = errno;
+        close(fd);
+        errno = ftruncate_errno;
         handle_allocation_error();
     }
     if (close(fd) == -1) {
-- 
2.43.0


From 123378259eb38eddab604bf6260abb8199c2897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 09/13] fix: decide reflex vertices exactly

---
 .../code/types/polyline/three_vertex_polyline.cpp              | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp b/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
index b29f43d..c8f3145 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
@@ -42,8 +42,7 @@ bool ThreeVertexPolyline::is_reflex() const {
     const auto s = _v2 - _v1;
     const auto t = _v3 - _v2;
 
-    const auto determinant = (s.get_longitude() * t.get_latitude()) - (s.get_latitude() * t.get_longitude());
-    return determinant < 0;
+    return s.cross_product_magnitude_microdegrees(t) < 0;
 }
 
 bool ThreeVertexPolyline::inclusive_between(double value, double lower, double upper) {
-- 
2.43.0


From a03d54d28b74f9019fa82dd1ccc15648f260cd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 10/13] fix: order coordinates with colliding hashes the same
 way in equal graphs

---
 .../visibility_graphs/code/datastructures/graph/graph.cpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index ebb1551..427e19e 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -164,7 +164,8 @@ std::string Graph::to_string_representation() const {
     auto outs = std::stringstream();
 
     const auto coord_sorter = [](const Coordinate &lhs, const Coordinate &rhs) {
-        return std::hash<Coordinate>()(lhs) < std::hash<Coordinate>()(rhs);
+        return std::make_pair(lhs.get_longitude_microdegrees(), lhs.get_latitude_microdegrees()) <
+               std::make_pair(rhs.get_longitude_microdegrees(), rhs.get_latitude_microdegrees());
     };
 
     auto vertices = get_vertices();
-- 
2.43.0


From 65993f31823fba9b8e8d0209fc88b7d6a620043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 11/13] fix: report exceptions raised in parallel regions
 instead of terminating

---
 .../code/datastructures/graph/graph.cpp       | 25 ++++++++---
 .../code/visgraph/visgraph_generator.cpp      | 43 +++++++++++++++----
 2 files changed, 53 insertions(+), 15 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index 427e19e..cdc97fa 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -3,6 +3,7 @@
 //
 
 #include <algorithm>
+#include <exception>
 #include <fmt/core.h>
 #include <sstream>
 #include <stdexcept>
@@ -260,18 +261,30 @@ std::shared_ptr<Graph> merge_graphs(const std::vector<std::shared_ptr<Graph>> &g
 
     auto merged_graph = std::make_shared<Graph>(std::vector<Polygon>(polygons.begin(), polygons.end()));
 
-    #pragma omp parallel for shared(graphs, merged_graph) default(none) schedule(static)
+    // An exception must not leave the parallel region, as that would terminate the process
+    std::exception_ptr error;
+
+    #pragma omp parallel for shared(graphs, merged_graph, error) default(none) schedule(static)
     for (size_t i = 0; i < graphs.size(); ++i) { // NOLINT
-        const auto graph = graphs[i];
-        for (const auto &vert_1 : graph->get_vertices()) {
-            for (const auto &vert_2 : graph->get_vertices()) {
-                if (graph->has_edge(vert_1, vert_2)) {
-                    merged_graph->add_edge(vert_1, vert_2, graph->is_edge_meridian_crossing(vert_1, vert_2));
+        try {
+            const auto graph = graphs[i];
+            for (const auto &vert_1 : graph->get_vertices()) {
+                for (const auto &vert_2 : graph->get_vertices()) {
+                    if (graph->has_edge(vert_1, vert_2)) {
+                        merged_graph->add_edge(vert_1, vert_2, graph->is_edge_meridian_crossing(vert_1, vert_2));
+                    }
                 }
             }
+        } catch (...) {
+            #pragma omp critical
+            error = std::current_exception();
         }
     }
 
+    if (error) {
+        std::rethrow_exception(error);
+    }
+
     return merged_graph;
 }
 
diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/visgraph_generator.cpp b/capi/src/implementation/visibility_graphs/code/visgraph/visgraph_generator.cpp
index 1709d1e..b904b90 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/visgraph_generator.cpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/visgraph_generator.cpp
@@ -2,6 +2,7 @@
 // Created by James.Balajan on 31/03/2021.
 //
 
+#include <exception>
 #include <algorithm>
 #include <random>
 #include <stdexcept>
@@ -40,7 +41,10 @@ std::shared_ptr<Graph> VisgraphGenerator::generate(const std::vector<Polygon> &p
         indicators::option::MaxProgress{num_vertices},
     };
 
-#pragma omp parallel shared(visgraph, polygon_vertices, vistree_gen, num_vertices, bar) default(none)
+    // An exception must not leave the parallel region, as that would terminate the process
+    std::exception_ptr error;
+
+#pragma omp parallel shared(visgraph, polygon_vertices, vistree_gen, num_vertices, bar, error) default(none)
     {
         size_t num_threads = omp_get_num_threads();
 
@@ -51,10 +55,15 @@ std::shared_ptr<Graph> VisgraphGenerator::generate(const std::vector<Polygon> &p
 
 #pragma omp for schedule(dynamic)
         for (size_t i = 0; i < num_vertices; ++i) { // NOLINT
-            const auto visible_vertices = vistree_gen.get_visible_vertices(polygon_vertices[i], true);
-
-            for (const auto &visible_vertex : visible_vertices) {
-                visgraph->add_edge(polygon_vertices[i], visible_vertex.coord, visible_vertex.is_visible_across_meridian);
+            try {
+                const auto visible_vertices = vistree_gen.get_visible_vertices(polygon_vertices[i], true);
+
+                for (const auto &visible_vertex : visible_vertices) {
+                    visgraph->add_edge(polygon_vertices[i], visible_vertex.coord, visible_vertex.is_visible_across_meridian);
+                }
+            } catch (...) {
+#pragma omp critical
+                error = std::current_exception();
             }
 
             if (omp_get_thread_num() == 0) {
@@ -63,6 +72,10 @@ std::shared_ptr<Graph> VisgraphGenerator::generate(const std::vector<Polygon> &p
         }
     }
 
+    if (error) {
+        std::rethrow_exception(error);
+    }
+
     bar.mark_as_completed();
 
     return visgraph;
@@ -83,15 +96,27 @@ std::shared_ptr<Graph> VisgraphGenerator::generate_with_shuffled_range(const std
     std::mt19937 gen(seed);
     std::shuffle(polygon_vertices.begin(), polygon_vertices.end(), gen);
 
-#pragma omp parallel for shared(visgraph, vistree_gen, polygon_vertices, range_start, range_end) default(none) schedule(dynamic)
+    // An exception must not leave the parallel region, as that would terminate the process
+    std::exception_ptr error;
+
+#pragma omp parallel for shared(visgraph, vistree_gen, polygon_vertices, range_start, range_end, error) default(none) schedule(dynamic)
     for (size_t i = range_start; i < range_end; ++i) { // NOLINT
-        const auto visible_vertices = vistree_gen.get_visible_vertices(polygon_vertices[i], true);
+        try {
+            const auto visible_vertices = vistree_gen.get_visible_vertices(polygon_vertices[i], true);
 
-        for (const auto &visible_vertex : visible_vertices) {
-            visgraph->add_edge(polygon_vertices[i], visible_vertex.coord, visible_vertex.is_visible_across_meridian);
+            for (const auto &visible_vertex : visible_vertices) {
+                visgraph->add_edge(polygon_vertices[i], visible_vertex.coord, visible_vertex.is_visible_across_meridian);
+            }
+        } catch (...) {
+#pragma omp critical
+            error = std::current_exception();
         }
     }
 
+    if (error) {
+        std::rethrow_exception(error);
+    }
+
     return visgraph;
 }
 
-- 
2.43.0


From bfbbb98b752bf0e7f8e575c0a17b6cbe70d34f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 12/13] fix: count zero vertices in a shapefile without usable
 polygons

---
 capi/src/implementation/graph_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/graph_generator.py b/capi/src/implementation/graph_generator.py
index 6692c58..ecae211 100644
--- a/capi/src/implementation/graph_generator.py
+++ b/capi/src/implementation/graph_generator.py
@@ -61,7 +61,7 @@ class GraphGenerator(IGraphGenerator):
 
     @staticmethod
     def _get_num_vertices_in_polygons(polygons: typing.Sequence[VisGraphPolygon]) -> int:
-        return reduce(lambda a, b: a + b, map(lambda polygon: len(polygon.vertices), polygons))
+        return reduce(lambda a, b: a + b, map(lambda polygon: len(polygon.vertices), polygons), 0)
 
 
 if __name__ == "__main__":  # pragma: no cover
-- 
2.43.0


From 878d49e4ff337da24cff6a3e7c2107c0d2174f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:02 +0000
Subject: [PATCH 13/13] fix: keep the polygons of a loaded graph exactly as
 they were saved

---
 .../code/serialization/graph_serializer.cpp                 | 2 +-
 .../visibility_graphs/code/types/polygon/polygon.cpp        | 6 ++++++
 .../visibility_graphs/code/types/polygon/polygon.hpp        | 3 +++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index 14f85c0..911f15e 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -176,7 +176,7 @@ size_t GraphSerializer::deserialize_polygon_vertices_from_mmap(const mio::mmap_s
 
         curr_offset += (num_vertices * 2 * sizeof(int32_t));
 
-        polygons[i] = Polygon(vertices);
+        polygons[i] = Polygon::from_preprocessed_vertices(vertices);
     }
 
     graph = std::make_shared<Graph>(polygons);
diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
index cc34f58..b48aceb 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
@@ -15,6 +15,12 @@ Polygon::Polygon(std::initializer_list<Coordinate> vertices) : _vertices(Polygon
 
 Polygon::Polygon(const std::vector<Coordinate> &vertices) : _vertices(Polygon::preprocess_vertices(vertices)) {}
 
+Polygon Polygon::from_preprocessed_vertices(const std::vector<Coordinate> &vertices) {
+    auto polygon = Polygon();
+    polygon._vertices = std::make_shared<std::vector<Coordinate>>(vertices);
+    return polygon;
+}
+
 const std::vector<Coordinate> &Polygon::get_vertices() const { return *_vertices; }
 
 std::vector<LineSegment> Polygon::get_line_segments() const {
diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.hpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.hpp
index 16d29b4..c76b33c 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.hpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.hpp
@@ -22,6 +22,9 @@ class Polygon {
     Polygon(std::initializer_list<Coordinate> vertices);
     explicit Polygon(const std::vector<Coordinate> &vertices);
 
+    // Takes the vertices of an already constructed polygon exactly as they are
+    static Polygon from_preprocessed_vertices(const std::vector<Coordinate> &vertices);
+
     [[nodiscard]] const std::vector<Coordinate> &get_vertices() const;
     [[nodiscard]] std::vector<LineSegment> get_line_segments() const;
 
-- 
2.43.0

