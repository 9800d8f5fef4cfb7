From 16ef7562cf35c94bb173ca355252c5101b988c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 01/18] fix: test every open edge for obstruction during the
 visibility sweep

Edges were kept in a map keyed by the distance at which they were opened, so
an edge with an already used key was dropped, and only the edge with the
smallest (stale) key was tested. Vertices behind other edges were reported as
visible, and edges of the visibility graph ran through polygons.
---
 .../code/datastructures/open_edges/open_edges.cpp  | 14 ++++++++++++++
 .../code/datastructures/open_edges/open_edges.hpp  |  3 ++-
 .../code/visgraph/vistree_generator.cpp            | 11 +----------
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
index e384cad..6082fef 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
@@ -2,9 +2,13 @@
 // Created by James.Balajan on 3/06/2021.
 //
 
+#include <algorithm>
+
 #include "open_edges.hpp"
 
 void OpenEdges::add_edge(int64_t distance, const LineSegment &segment) {
+    remove_edge(segment);
+
     _edges_sorted_by_distance.emplace(distance, segment);
     _edge_to_distance_mapping[segment] = distance;
 }
@@ -29,3 +33,13 @@ void OpenEdges::remove_edge(const LineSegment &segment) {
 LineSegment OpenEdges::closest_edge() const { return _edges_sorted_by_distance.begin()->second; }
 
 bool OpenEdges::empty() const { return _edges_sorted_by_distance.empty(); }
+
+bool OpenEdges::obstructs(const LineSegment &sight_line) const {
+    // The order of the edges is that of their distances when they were opened. It does not say which edge
+    // is the closest one along this sight line, so every open edge has to be considered.
+    return std::any_of(_edges_sorted_by_distance.begin(), _edges_sorted_by_distance.end(),
+                       [&sight_line](const auto &distance_and_edge) {
+                           const auto intersection = distance_and_edge.second.intersection_with_segment(sight_line);
+                           return intersection.has_value() && intersection.value() != sight_line.get_endpoint_2();
+                       });
+}
diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp
index cdd4872..8129f8a 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp
@@ -18,9 +18,10 @@ class OpenEdges {
 
     [[nodiscard]] LineSegment closest_edge() const;
     [[nodiscard]] bool empty() const;
+    [[nodiscard]] bool obstructs(const LineSegment &sight_line) const;
 
   private:
-    std::map<int64_t, const LineSegment> _edges_sorted_by_distance;
+    std::multimap<int64_t, const LineSegment> _edges_sorted_by_distance;
     std::unordered_map<LineSegment, int64_t> _edge_to_distance_mapping;
 };
 
diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
index cdd4097..d3a22fa 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
@@ -213,16 +213,7 @@ bool VistreeGenerator::is_vertex_visible(const OpenEdges &open_edges, const Coor
         }
     }
 
-    if (!open_edges.empty()) {
-        const auto &closest_edge = open_edges.closest_edge();
-        const auto intersection =
-            closest_edge.intersection_with_segment(LineSegment(observer_coordinate, vertex_in_question));
-        if (intersection.has_value() && intersection.value() != vertex_in_question) {
-            return false;
-        }
-    }
-
-    return true;
+    return !open_edges.obstructs(LineSegment(observer_coordinate, vertex_in_question));
 }
 
 void VistreeGenerator::erase_segments_from_open_edges(const std::vector<std::shared_ptr<LineSegment>> &segments,
-- 
2.43.0


From 8fd21f816f51f92ff6903e01994eea46c955acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 02/18] fix: count each meridian spanning edge once when saving
 a graph

The count covered ordered pairs, twice as many as the edge numbers that are
written. The remaining slots kept whatever an already existing file held there,
and were read back as meridian spanning edges.
---
 .../code/serialization/graph_serializer.cpp                | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index f7a6dc7..b1de1d5 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -234,10 +234,11 @@ size_t GraphSerializer::calculate_number_of_bytes_for_graph(const std::shared_pt
 }
 
 uint64_t GraphSerializer::calculate_number_of_meridian_spanning_edges_for_graph(const std::shared_ptr<Graph> &graph) {
+    const auto vertices = graph->get_vertices();
     size_t meridian_spanning_edges = 0;
-    for (const auto &vertex_1 : graph->get_vertices()) {
-        for (const auto &vertex_2 : graph->get_vertices()) {
-            meridian_spanning_edges += graph->is_edge_meridian_crossing(vertex_1, vertex_2);
+    for (size_t i = 0; i < vertices.size(); ++i) {
+        for (size_t j = 0; j < i; ++j) {
+            meridian_spanning_edges += graph->is_edge_meridian_crossing(vertices[i], vertices[j]);
         }
     }
 
-- 
2.43.0


From 3782a33783944644f4e4cb64d690e7e4fa0751cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 03/18] fix: return the outgoing neighbors of a vertex

An edge from a to b is stored at a + n * b, but get_neighbors read the
vertices b with an edge to a.
---
 .../visibility_graphs/code/datastructures/graph/graph.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index d39e503..6aae600 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -201,7 +201,7 @@ std::vector<Coordinate> Graph::get_neighbors(const Coordinate &vertex) const {
 
     std::vector<Coordinate> neighbors;
     for (size_t i_offset = 0; i_offset < _num_coords; ++i_offset) {
-        size_t i = i_offset + (index * _num_coords);
+        size_t i = index + (i_offset * _num_coords);
         if (_neighbors[i] != EdgeState::DISCONNECTED) {
             neighbors.push_back(index_to_coordinate(i_offset));
         }
-- 
2.43.0


From 367fd0beea7ac0c5bb1850d17636d926c909e102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 04/18] fix: keep the edges of a graph when a vertex is added
 to it

The adjacency matrix was resized without moving its rows, so existing edges
ended up between other vertices. Adding a vertex that is already there made a
second copy of it.
---
 .../code/datastructures/graph/graph.cpp            | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index 6aae600..de8be19 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -215,11 +215,21 @@ std::vector<Coordinate> Graph::get_vertices() const { return _index_to_coordinat
 std::vector<Polygon> Graph::get_polygons() const { return _polygons; }
 
 void Graph::add_vertex(const Coordinate &vertex) {
+    if (has_vertex(vertex)) {
+        return;
+    }
+
     _coordinate_to_index_mapping[vertex] = _num_coords;
     _index_to_coordinate_mapping.push_back(vertex);
 
-    ++_num_coords;
-    _neighbors.resize(_num_coords*_num_coords, EdgeState::DISCONNECTED);
+    const auto previous_num_coords = _num_coords++;
+    auto neighbors = std::vector<EdgeState>(_num_coords * _num_coords, EdgeState::DISCONNECTED);
+    for (size_t i = 0; i < previous_num_coords; ++i) {
+        for (size_t j = 0; j < previous_num_coords; ++j) {
+            neighbors[i + (_num_coords * j)] = _neighbors[i + (previous_num_coords * j)];
+        }
+    }
+    _neighbors = std::move(neighbors);
     _accessor_locks.push_back(std::make_unique<std::shared_mutex>());
 }
 
-- 
2.43.0


From 3807ecc4952a166985fd1b1321fa2a2ee3244ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 05/18] fix: order coordinates with equal hashes when comparing
 graphs

Equal graphs whose vertices are stored in a different order compared as
different when two of their coordinates have the same hash.
---
 .../code/datastructures/graph/graph.cpp                | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index de8be19..b2b0d78 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -164,7 +164,15 @@ std::string Graph::to_string_representation() const {
     auto outs = std::stringstream();
 
     const auto coord_sorter = [](const Coordinate &lhs, const Coordinate &rhs) {
-        return std::hash<Coordinate>()(lhs) < std::hash<Coordinate>()(rhs);
+        const auto lhs_hash = std::hash<Coordinate>()(lhs);
+        const auto rhs_hash = std::hash<Coordinate>()(rhs);
+        if (lhs_hash != rhs_hash) {
+            return lhs_hash < rhs_hash;
+        }
+        if (lhs.get_longitude_microdegrees() != rhs.get_longitude_microdegrees()) {
+            return lhs.get_longitude_microdegrees() < rhs.get_longitude_microdegrees();
+        }
+        return lhs.get_latitude_microdegrees() < rhs.get_latitude_microdegrees();
     };
 
     auto vertices = get_vertices();
-- 
2.43.0


From aaea58e402085c4d69e44c28197d1e6c6f189a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 06/18] fix: make a modified graph behave like a modified copy
 of its base

An edge added across the meridian after its removal was reported as direct, a
base edge added again and a base vertex with an overlay entry were listed twice,
and edges of vertices that are not in the base threw.
---
 .../modified_graph/modified_graph.cpp         | 24 ++++++++++++++-----
 .../modified_graph/modified_graph.hpp         |  2 ++
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
index cbd8e0a..15bd717 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
@@ -2,6 +2,8 @@
 // Created by James.Balajan on 23-Feb.-2022.
 //
 
+#include <algorithm>
+
 #include "modified_graph.hpp"
 
 ModifiedGraph::ModifiedGraph(std::shared_ptr<IGraph> base_graph): _graph(base_graph) { } // NOLINT
@@ -22,14 +24,16 @@ void ModifiedGraph::add_directed_edge(const Coordinate &a, const Coordinate &b,
 
     if (_neighbors[a].find(b) == _neighbors[a].end()) {
         _neighbors[a][b] = NeighborInfo {
-            .is_meridian_crossing = meridian_crossing && (!_graph->has_edge(a, b) || _graph->is_edge_meridian_crossing(a, b)),
+            .is_meridian_crossing = meridian_crossing && (!base_has_edge(a, b) || _graph->is_edge_meridian_crossing(a, b)),
             .relationship = NeighborRelationship::EDGE_PRESENT
         };
     } else {
         const auto& curr_neighbor = _neighbors[a][b];
 
         _neighbors[a][b] = NeighborInfo {
-            .is_meridian_crossing = meridian_crossing && curr_neighbor.is_meridian_crossing,
+            .is_meridian_crossing =
+                meridian_crossing && (curr_neighbor.relationship == NeighborRelationship::EDGE_REMOVED ||
+                                      curr_neighbor.is_meridian_crossing),
             .relationship = NeighborRelationship::EDGE_PRESENT,
         };
     }
@@ -63,7 +67,7 @@ bool ModifiedGraph::has_vertex(const Coordinate &vertex) const {
 
 bool ModifiedGraph::has_edge(const Coordinate &a, const Coordinate &b) const {
     if (_neighbors.find(a) == _neighbors.end() || _neighbors.at(a).find(b) == _neighbors.at(a).end()) {
-        return _graph->has_edge(a, b);
+        return base_has_edge(a, b);
     }
 
     return _neighbors.at(a).at(b).relationship == NeighborRelationship::EDGE_PRESENT;
@@ -71,7 +75,7 @@ bool ModifiedGraph::has_edge(const Coordinate &a, const Coordinate &b) const {
 
 bool ModifiedGraph::is_edge_meridian_crossing(const Coordinate &a, const Coordinate &b) const {
     if (_neighbors.find(a) == _neighbors.end() || _neighbors.at(a).find(b) == _neighbors.at(a).end()) {
-        return _graph->is_edge_meridian_crossing(a, b);
+        return base_has_edge(a, b) && _graph->is_edge_meridian_crossing(a, b);
     }
 
     return _neighbors.at(a).at(b).is_meridian_crossing;
@@ -86,7 +90,9 @@ std::vector<Coordinate> ModifiedGraph::get_neighbors(const Coordinate &vertex) c
     neighbors.reserve(_neighbors.at(vertex).size() + neighbors.size());
     for (const auto& neighbor : _neighbors.at(vertex)) {
         if (neighbor.second.relationship == NeighborRelationship::EDGE_PRESENT) {
-            neighbors.push_back(neighbor.first);
+            if (std::find(neighbors.begin(), neighbors.end(), neighbor.first) == neighbors.end()) {
+                neighbors.push_back(neighbor.first);
+            }
         } else if (neighbor.second.relationship == NeighborRelationship::EDGE_REMOVED) {
             neighbors.erase(std::remove(neighbors.begin(), neighbors.end(), neighbor.first), neighbors.end());
         }
@@ -100,7 +106,9 @@ std::vector<Coordinate> ModifiedGraph::get_vertices() const {
     base_vertices.reserve(base_vertices.size() + _neighbors.size());
 
     for (const auto& neighbor : _neighbors) {
-        base_vertices.push_back(neighbor.first);
+        if (!_graph->has_vertex(neighbor.first)) {
+            base_vertices.push_back(neighbor.first);
+        }
     }
 
     return base_vertices;
@@ -109,3 +117,7 @@ std::vector<Coordinate> ModifiedGraph::get_vertices() const {
 std::vector<Polygon> ModifiedGraph::get_polygons() const {
     return _graph->get_polygons();
 }
+
+bool ModifiedGraph::base_has_edge(const Coordinate &a, const Coordinate &b) const {
+    return _graph->has_vertex(a) && _graph->has_vertex(b) && _graph->has_edge(a, b);
+}
diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp
index ad5cbfb..06c20a2 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp
@@ -46,6 +46,8 @@ class ModifiedGraph : public IGraph {
         [[nodiscard]] std::vector<Coordinate> get_vertices() const override;
         [[nodiscard]] std::vector<Polygon> get_polygons() const override;
     private:
+        [[nodiscard]] bool base_has_edge(const Coordinate &a, const Coordinate &b) const;
+
         std::shared_ptr<IGraph> _graph;
         std::unordered_map<Coordinate, std::unordered_map<Coordinate, NeighborInfo>> _neighbors;
 };
-- 
2.43.0


From a76ece90304e47028c78b89bfb4a9dada1cfa422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 07/18] fix: let the ends of a path see vertices across the
 meridian

The vertices visible from a source or destination that is not in the graph were
looked up without the periodic copies of the polygons, so such an end was never
connected across the meridian and paths went around the world.
---
 .../code/shortest_path/shortest_path_computer.cpp               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
index 5fb11bc..5f71d69 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
@@ -20,7 +20,7 @@ struct AStarHeapElement {
 };
 
 ShortestPathComputer::ShortestPathComputer(const std::shared_ptr<IGraph> &graph) :
-    _graph(graph), _index(graph->get_polygons()), _vistree_gen(graph->get_polygons()) {}
+    _graph(graph), _index(graph->get_polygons()), _vistree_gen(make_polygons_periodic(graph->get_polygons())) {}
 
 std::vector<Coordinate> ShortestPathComputer::shortest_path(const Coordinate &source, const Coordinate &destination,
                                                             double maximum_distance_to_search_from_source,
-- 
2.43.0


From 3d5d19efafbd32bec9ddac763af7f160231b23ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 08/18] fix: keep one copy of a polygon vertex that is repeated

A vertex that follows a copy of itself, such as the first vertex of a closed
ring repeated at its end, was removed together with the copy.
---
 .../visibility_graphs/code/types/polygon/polygon.cpp     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
index cc34f58..d7cb36e 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
@@ -78,7 +78,14 @@ Orientation get_orientation_of_vertices(const std::vector<Coordinate> &vertices)
     }
 }
 
-std::vector<Coordinate> Polygon::remove_collinear_vertices(const std::vector<Coordinate> &vertices) {
+std::vector<Coordinate> Polygon::remove_collinear_vertices(const std::vector<Coordinate> &all_vertices) {
+    // Consecutive copies of a vertex are collinear with anything, so they are dropped first
+    auto vertices = all_vertices;
+    vertices.erase(std::unique(vertices.begin(), vertices.end()), vertices.end());
+    while (vertices.size() > 1 && vertices.front() == vertices.back()) {
+        vertices.pop_back();
+    }
+
     const long num_vertices = vertices.size();
     auto filtered_vertices = std::vector<Coordinate>();
     filtered_vertices.reserve(num_vertices);
-- 
2.43.0


From ea19b8c82678232f1b084549cefc9a1944aea3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 09/18] fix: generate a vertex range of a shapefile without
 polygons

The number of vertices was reduced without an initial value, which raises an
error when there is nothing to reduce.
---
 capi/src/implementation/graph_generator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/capi/src/implementation/graph_generator.py b/capi/src/implementation/graph_generator.py
index 6692c58..f34ee9d 100644
--- a/capi/src/implementation/graph_generator.py
+++ b/capi/src/implementation/graph_generator.py
@@ -1,6 +1,5 @@
 import os
 import typing
-from functools import reduce
 
 from capi.src.implementation.datastructures.graph_file_paths import GraphFilePaths
 from capi.src.implementation.shapefiles.shapefile_reader import ShapefileReader
@@ -61,7 +60,7 @@ class GraphGenerator(IGraphGenerator):
 
     @staticmethod
     def _get_num_vertices_in_polygons(polygons: typing.Sequence[VisGraphPolygon]) -> int:
-        return reduce(lambda a, b: a + b, map(lambda polygon: len(polygon.vertices), polygons))
+        return sum(len(polygon.vertices) for polygon in polygons)
 
 
 if __name__ == "__main__":  # pragma: no cover
-- 
2.43.0


From b8dbf9565e53a5acc1615a75bea914af2c6eb89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 10/18] fix: do not join two corrected points straight across
 land

The straight line was returned if it crosses no edge but those that the source
and the destination were moved to. Between two shores of the same polygon it
crosses the land in between.
---
 .../shortest_path/shortest_path_computer.cpp  | 27 ++++++++++++++++++-
 .../shortest_path/shortest_path_computer.hpp  |  1 +
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
index 5f71d69..e08c3b3 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
@@ -43,7 +43,7 @@ std::vector<Coordinate> ShortestPathComputer::shortest_path(const Coordinate &so
         }
     }
 
-    if (num_intersections_excluding_corrections == 0) {
+    if (num_intersections_excluding_corrections == 0 && !is_straight_line_over_land(land_corrections)) {
         return std::vector<Coordinate>{corrected_source, corrected_dest};
     }
 
@@ -208,6 +208,31 @@ LandCollisionCorrection ShortestPathComputer::handle_land_collisions(const Coord
     };
 }
 
+bool ShortestPathComputer::is_straight_line_over_land(const LandCollisionCorrection &correction) {
+    if (correction.corrected_source_edge == correction.corrected_dest_edge) {
+        // Neither end was corrected, or both were corrected to the same shore
+        return false;
+    }
+
+    // A corrected end lies on its edge, so a line from it to the land side of the edge starts on land
+    const auto is_on_land_side = [](const std::optional<LineSegment> &edge, const Coordinate &end,
+                                    const Coordinate &other_end) {
+        if (!edge.has_value()) {
+            return false;
+        }
+
+        const auto candidates = periodic_coordinates_from_coordinate(other_end);
+        const auto nearest = std::min_element(candidates.begin(), candidates.end(),
+                                              [&end](const Coordinate &lhs, const Coordinate &rhs) {
+                                                  return (lhs - end).magnitude() < (rhs - end).magnitude();
+                                              });
+        return edge.value().orientation_of_point_to_segment(*nearest) == Orientation::COUNTER_CLOCKWISE;
+    };
+
+    return is_on_land_side(correction.corrected_source_edge, correction.corrected_source, correction.corrected_dest) ||
+           is_on_land_side(correction.corrected_dest_edge, correction.corrected_dest, correction.corrected_source);
+}
+
 std::shared_ptr<IGraph> ShortestPathComputer::create_modified_graph(const LandCollisionCorrection &correction) const {
     if (_graph->has_vertex(correction.corrected_source) && _graph->has_vertex(correction.corrected_dest)) {
         return _graph;
diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
index 53cd64e..99d2b84 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.hpp
@@ -50,6 +50,7 @@ class ShortestPathComputer {
     [[nodiscard]] LandCollisionCorrection handle_land_collisions(const Coordinate &source,
                                                                  const Coordinate &destination,
                                                                  bool correct_vertices_on_land) const;
+    [[nodiscard]] static bool is_straight_line_over_land(const LandCollisionCorrection &correction);
     [[nodiscard]] std::shared_ptr<IGraph> create_modified_graph(const LandCollisionCorrection &correction) const;
 
     std::shared_ptr<IGraph> _graph;
-- 
2.43.0


From 2f9e2acff0ebc9a22b930b4583b9b043a14b7204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 11/18] fix: let a corrected point see no farther than the ends
 of its shore

From a point on an edge the vertices on the line of that edge were all taken to
be in sight, also those with land in between.
---
 .../code/shortest_path/shortest_path_computer.cpp           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
index e08c3b3..8e28b70 100644
--- a/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/shortest_path/shortest_path_computer.cpp
@@ -249,8 +249,10 @@ std::shared_ptr<IGraph> ShortestPathComputer::create_modified_graph(const LandCo
             const auto reachable_vertices = _vistree_gen.get_visible_vertices(vertices_to_process[i]);
 
             for (const auto &point : reachable_vertices) {
-                if (!blocking_edges[i].has_value() ||
-                    blocking_edges[i].value().orientation_of_point_to_segment(point.coord) != Orientation::COUNTER_CLOCKWISE) {
+                // Along a shore only its ends are in sight: what lies beyond may be behind land
+                if (!blocking_edges[i].has_value() || point.coord == blocking_edges[i].value().get_endpoint_1() ||
+                    point.coord == blocking_edges[i].value().get_endpoint_2() ||
+                    blocking_edges[i].value().orientation_of_point_to_segment(point.coord) == Orientation::CLOCKWISE) {
                     modified_graph->add_edge(vertices_to_process[i], point.coord, point.is_visible_across_meridian);
                 }
             }
-- 
2.43.0


From a824c8132ea1e6fd4cde5c8853846ecac299be15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 12/18] fix: sort points around an observer that is listed more
 than once

---
 .../visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp b/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
index b5be354..689d55d 100644
--- a/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
+++ b/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
@@ -14,7 +14,7 @@ void AngleSorter::sort_counter_clockwise_around_observer(const Coordinate &obser
 
     const auto cmp = [&](const Coordinate &c1, const Coordinate &c2) -> bool {
         if (c1 == observer) {
-            return true;
+            return c2 != observer;
         } else if (c2 == observer) {
             return false;
         }
-- 
2.43.0


From 18f0dc76a3baf88608e0f4a1a2e6930dded36dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:05 +0000
Subject: [PATCH 13/18] fix: let no sight line past an edge crossed less than
 half a microdegree before its end

The intersection of an open edge with the sight line was rounded to whole microdegrees and compared
with the end of the sight line, so that an edge crossed just before the vertex was taken to touch it
there and the vertex was seen through land. Whether the vertex lies on the edge is what has to be asked.
---
 .../code/datastructures/open_edges/open_edges.cpp            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
index 6082fef..01325a7 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
@@ -39,7 +39,8 @@ bool OpenEdges::obstructs(const LineSegment &sight_line) const {
     // is the closest one along this sight line, so every open edge has to be considered.
     return std::any_of(_edges_sorted_by_distance.begin(), _edges_sorted_by_distance.end(),
                        [&sight_line](const auto &distance_and_edge) {
-                           const auto intersection = distance_and_edge.second.intersection_with_segment(sight_line);
-                           return intersection.has_value() && intersection.value() != sight_line.get_endpoint_2();
+                           const auto &edge = distance_and_edge.second;
+                           return edge.intersection_with_segment(sight_line).has_value() &&
+                                  !edge.on_segment(sight_line.get_endpoint_2());
                        });
 }
-- 
2.43.0


From 545ca27cdc9bbf67286154035ae20168a8d4375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 14/18] fix: the direction of a long and thin polygon was lost
 in rounding

---
 .../visibility_graphs/code/types/polygon/polygon.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
index d7cb36e..e355bb6 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
@@ -3,6 +3,7 @@
 //
 
 #include <algorithm>
+#include <cstdint>
 #include <sstream>
 #include <utility>
 #include <vector>
@@ -60,14 +61,17 @@ Polygon::normalize_vertex_orientation_to_counter_clockwise(const std::vector<Coo
 }
 
 Orientation get_orientation_of_vertices(const std::vector<Coordinate> &vertices) {
-    double winding_sum = 0;
+    // In exact arithmetic: doubles lose the sign for long and thin polygons. Sums may wrap around, as their total fits
+    uint64_t wrapped_winding_sum = 0;
     long num_vertices = vertices.size();
-#pragma omp simd reduction(+ : winding_sum)
+#pragma omp simd reduction(+ : wrapped_winding_sum)
     for (long i = 0; i < num_vertices; ++i) {
         long next_i = (i + 1) % num_vertices;
-        winding_sum += (vertices[next_i].get_longitude() - vertices[i].get_longitude()) *
-                       (vertices[next_i].get_latitude() + vertices[i].get_latitude());
+        wrapped_winding_sum += static_cast<uint64_t>(
+            (vertices[next_i].get_longitude_microdegrees_long() - vertices[i].get_longitude_microdegrees_long()) *
+            (vertices[next_i].get_latitude_microdegrees_long() + vertices[i].get_latitude_microdegrees_long()));
     }
+    const auto winding_sum = static_cast<int64_t>(wrapped_winding_sum);
 
     if (winding_sum < 0) {
         return Orientation::COUNTER_CLOCKWISE;
-- 
2.43.0


From d01aee180a0ffc9a3e43917e6cfbae56ba49258a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:22 +0000
Subject: [PATCH 15/18] fix: order the segments of a vertex in trees made from
 segments

The observer's own sides are taken in the order in which they are incident: first the one that leads to the vertex. For
the first vertex of a polygon, whose leaving segment is given first, the two were the wrong way around, so it saw into
its own land.
---
 .../visibility_graphs/code/visgraph/vistree_generator.cpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
index d3a22fa..0709b41 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
@@ -27,8 +27,9 @@ VistreeGenerator::VistreeGenerator(const std::vector<std::shared_ptr<LineSegment
             _vertices_and_segments[p2] = std::vector<std::shared_ptr<LineSegment>>{};
         }
 
+        // The segment that leads to a vertex comes before the one that leaves it, whichever is given first
         _vertices_and_segments[p1].push_back(segment);
-        _vertices_and_segments[p2].push_back(segment);
+        _vertices_and_segments[p2].insert(_vertices_and_segments[p2].begin(), segment);
     }
 }
 
-- 
2.43.0


From 44d418cc959d0c15cb359ce5c7745245472f0626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:13 +0000
Subject: [PATCH 16/18] fix: sort directions around an observer exactly

In floating point, directions that differ can have the same angle to the horizontal, and were sorted
in any order: far points in almost the same direction, west or south of the observer.
---
 .../code/geom/angle_sorter/angle_sorter.cpp    | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp b/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
index 689d55d..cea3830 100644
--- a/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
+++ b/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
@@ -12,6 +12,12 @@ void AngleSorter::sort_counter_clockwise_around_observer(const Coordinate &obser
         return;
     }
 
+    // From due west on, counter-clockwise
+    const auto is_in_second_half_turn = [](const Coordinate &v) -> bool {
+        return v.get_latitude_microdegrees() < 0 ||
+               (v.get_latitude_microdegrees() == 0 && v.get_longitude_microdegrees() < 0);
+    };
+
     const auto cmp = [&](const Coordinate &c1, const Coordinate &c2) -> bool {
         if (c1 == observer) {
             return c2 != observer;
@@ -24,10 +30,14 @@ void AngleSorter::sort_counter_clockwise_around_observer(const Coordinate &obser
         const auto dotprod = v1.dot_product_microdegrees(v2);
 
         if (v1.vector_orientation(v2) != Orientation::COLLINEAR || dotprod < 0) {
-            const auto v1_angle_to_horizontal = v1.angle_to_horizontal();
-            const auto v2_angle_to_horizontal = v2.angle_to_horizontal();
-
-            return v1_angle_to_horizontal < v2_angle_to_horizontal;
+            // Exactly: in floating point, directions that differ can have the same angle
+            const auto v1_in_second_half = is_in_second_half_turn(v1);
+            const auto v2_in_second_half = is_in_second_half_turn(v2);
+            if (v1_in_second_half != v2_in_second_half) {
+                return v2_in_second_half;
+            }
+
+            return v1.vector_orientation(v2) == Orientation::COUNTER_CLOCKWISE;
         }
 
         return v1.magnitude_squared() < v2.magnitude_squared();
-- 
2.43.0


From d7b9e2ef19ef5478242b64c707aeac7b2f4becc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:13 +0000
Subject: [PATCH 17/18] fix: tell exactly whether a corner is reflex

The sign of a nearly straight corner with sides of more than a hundred degrees was lost in floating
point, and nothing was visible from it, not even the ends of its own sides.
---
 .../code/types/polyline/three_vertex_polyline.cpp             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp b/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
index b29f43d..de0ae49 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
@@ -42,8 +42,8 @@ bool ThreeVertexPolyline::is_reflex() const {
     const auto s = _v2 - _v1;
     const auto t = _v3 - _v2;
 
-    const auto determinant = (s.get_longitude() * t.get_latitude()) - (s.get_latitude() * t.get_longitude());
-    return determinant < 0;
+    // Exactly: the sign of a nearly straight corner with long sides is lost in floating point
+    return s.vector_orientation(t) == Orientation::CLOCKWISE;
 }
 
 bool ThreeVertexPolyline::inclusive_between(double value, double lower, double upper) {
-- 
2.43.0


From a11ffe3bbdba38e13fc9bedf23dbbe20faece300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:13 +0000
Subject: [PATCH 18/18] fix: see nothing beyond the end of the next side of a
 corner

Up to two millionths of the side's length beyond its end were tolerated: where the corner there is
reflex this is land, so vertices on the other side of a narrow neck were joined through it.
---
 .../code/types/polyline/three_vertex_polyline.cpp           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp b/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
index de0ae49..9d34053 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
@@ -17,13 +17,15 @@ bool ThreeVertexPolyline::point_visible(const Coordinate &coordinate) const {
     const auto v2v3_orientation = v2v3.vector_orientation(v2coord);
     const auto reflex = is_reflex();
 
+    // Nothing is in sight beyond v3, however near: what begins there may be land, and no edge would obstruct it
+
     if (!reflex) {
         return !(
             (v2v1_orientation == Orientation::CLOCKWISE && v2v3_orientation == Orientation::COUNTER_CLOCKWISE) ||
             (v2v1_orientation == Orientation::COLLINEAR && v2v3_orientation == Orientation::COUNTER_CLOCKWISE &&
                     !ThreeVertexPolyline::inclusive_between(v2v1.scalar_multiple_factor(v2coord).value(), -EPSILON_TOLERANCE, 1 + EPSILON_TOLERANCE)) ||
             (v2v1_orientation == Orientation::CLOCKWISE && v2v3_orientation == Orientation::COLLINEAR &&
-                    !ThreeVertexPolyline::inclusive_between(v2v3.scalar_multiple_factor(v2coord).value(), -EPSILON_TOLERANCE, 1 + EPSILON_TOLERANCE))
+                    v2v3.scalar_multiple_factor(v2coord).value() > 1)
         );
     } else {
         return (
@@ -31,7 +33,7 @@ bool ThreeVertexPolyline::point_visible(const Coordinate &coordinate) const {
             (v2v1_orientation == Orientation::COLLINEAR && v2v3_orientation == Orientation::CLOCKWISE &&
                     ThreeVertexPolyline::inclusive_between(v2v1.scalar_multiple_factor(v2coord).value(), -EPSILON_TOLERANCE, 1 + EPSILON_TOLERANCE)) ||
             (v2v1_orientation == Orientation::COUNTER_CLOCKWISE && v2v3_orientation == Orientation::COLLINEAR &&
-                    ThreeVertexPolyline::inclusive_between(v2v3.scalar_multiple_factor(v2coord).value(), -EPSILON_TOLERANCE, 1 + EPSILON_TOLERANCE))
+                    v2v3.scalar_multiple_factor(v2coord).value() <= 1)
         );
     }
 }
-- 
2.43.0

