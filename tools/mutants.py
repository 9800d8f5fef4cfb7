"""Small wrong changes, by property, for mutate.py: (name, properties that should notice, [(file, old, new)...])"""
G = 'datastructures/graph/graph.cpp'
MG = 'datastructures/modified_graph/modified_graph.cpp'
SP = 'shortest_path/shortest_path_computer.cpp'
VT = 'visgraph/vistree_generator.cpp'
VG = 'visgraph/visgraph_generator.cpp'
OE = 'datastructures/open_edges/open_edges.cpp'
TP = 'types/polyline/three_vertex_polyline.cpp'
PG = 'types/polygon/polygon.cpp'
CO = 'types/coordinate/coordinate.cpp'
LS = 'types/line_segment/line_segment.cpp'
SI = 'datastructures/spatial_segment_index/spatial_segment_index.cpp'
SE = 'serialization/graph_serializer.cpp'
CP = 'coordinate_periodicity/coordinate_periodicity.cpp'
AS = 'geom/angle_sorter/angle_sorter.cpp'
BI = 'capi/src/implementation/visibility_graphs/bindings.cpp'
PI = 'capi/src/implementation/path_interpolator.py'
GG = 'capi/src/implementation/graph_generator.py'
GM = 'capi/src/implementation/graph_merger.py'
SR = 'capi/src/implementation/shapefiles/shapefile_reader.py'
M = [
 # the graph store
 ('crossing-by-bit', 'C10 C02', [(G, '_neighbors[index] == EdgeState::CONNECTED_OVER_MERIDIAN', '(_neighbors[index] & EdgeState::CONNECTED_OVER_MERIDIAN) != 0')]),
 ('rem-keeps-crossing', 'C10', [(G, '    _neighbors[index] = EdgeState::DISCONNECTED;', '    _neighbors[index] = static_cast<EdgeState>(_neighbors[index] & ~EdgeState::CONNECTED);')]),
 ('add-once', 'C10 C09 C08', [(G, '    _neighbors[index] = static_cast<EdgeState>(\n', '    if (_neighbors[index] != EdgeState::DISCONNECTED) return;\n    _neighbors[index] = static_cast<EdgeState>(\n')]),
 ('nb-plain-only', 'C10 C04', [(G, 'if (_neighbors[i] != EdgeState::DISCONNECTED)', 'if (_neighbors[i] & EdgeState::CONNECTED)')]),
 ('eq-by-length', 'C16', [(G, 'return to_string_representation() == other.to_string_representation();', 'return to_string_representation().size() == other.to_string_representation().size();')]),
 ('eq-by-hash32', 'C16', [(G, 'return to_string_representation() == other.to_string_representation();', 'return get_vertices().size() == other.get_vertices().size() && std::hash<std::string>()(to_string_representation()) % 64 == std::hash<std::string>()(other.to_string_representation()) % 64;')]),
 ('text-4-digits', 'C16', [(G, '"\\t[({}, {}) ["', '"\\t[({:.4f}, {:.4f}) ["'), (G, '"({}, {}, meridian_span: {}) "', '"({:.4f}, {:.4f}, meridian_span: {}) "')]),
 ('text-no-flag', 'C16', [(G, 'is_edge_meridian_crossing(vertex, neighbor));', 'false);')]),
 ('merge-new-only', 'C08', [(G, 'if (graph->has_edge(vert_1, vert_2)) {', 'if (graph->has_edge(vert_1, vert_2) && !merged_graph->has_edge(vert_1, vert_2)) {')]),
 ('merge-first-polygons', 'C08', [(G, '    for (const auto &graph : graphs) {\n        for (const auto &poly', '    for (const auto &graph : {graphs.front()}) {\n        for (const auto &poly')]),
 ('merge-upper', 'C08', [(G, '                if (graph->has_edge(vert_1, vert_2)) {', '                if (std::hash<Coordinate>()(vert_1) < std::hash<Coordinate>()(vert_2) && graph->has_edge(vert_1, vert_2)) {')]),
 ('merge-flag-direct', 'C08', [(G, 'graph->is_edge_meridian_crossing(vert_1, vert_2));\n                }', 'graph->is_edge_meridian_crossing(vert_2, vert_1) && !merged_graph->has_edge(vert_1, vert_2));\n                }')]),
 ('unknown-vertex-is-0', 'C10', [(G, '        throw std::runtime_error(fmt::format("Coordinate {} not', '        if (!_index_to_coordinate_mapping.empty()) return 0;\n        throw std::runtime_error(fmt::format("Coordinate {} not')]),
 # generation
 ('gen-once', 'C09 C02', [(VG, '                visgraph->add_edge(polygon_vertices[i], visible_vertex.coord, visible_vertex.is_visible_across_meridian);\n            }\n\n            if', '                if (!visgraph->has_edge(polygon_vertices[i], visible_vertex.coord)) visgraph->add_edge(polygon_vertices[i], visible_vertex.coord, visible_vertex.is_visible_across_meridian);\n            }\n\n            if')]),
 ('range-short', 'C08', [(VG, 'for (size_t i = range_start; i < range_end; ++i)', 'for (size_t i = range_start; i + (range_end == polygon_vertices.size() ? 0 : 1) < range_end; ++i)')]),
 ('range-directed', 'C08', [(VG, '    for (size_t i = range_start; i < range_end; ++i) { // NOLINT\n        const auto visible_vertices = vistree_gen.get_visible_vertices(polygon_vertices[i], true);', '    for (size_t i = range_start; i < range_end; ++i) { // NOLINT\n        const auto visible_vertices = vistree_gen.get_visible_vertices(polygon_vertices[i], i % 2 == 0);')]),
 ('seed-by-threads', 'C09 C08', [(VG, 'std::mt19937 gen(seed);', 'std::mt19937 gen(seed + omp_get_max_threads());')]),
('half-lt', 'C02', [(VT, 'cross_product_magnitude_microdegrees(scanline_segment.get_tangent_vector()) < 0', 'cross_product_magnitude_microdegrees(scanline_segment.get_tangent_vector()) <= 0 && scanline_segment.get_tangent_vector().get_longitude_microdegrees() < 0')]),
 # the sweep
 ('scanline-180', 'C01 C19', [(VT, 'LineSegment(observer, Coordinate(MAX_PERIODIC_LONGITUDE_MICRODEGREES,', 'LineSegment(observer, Coordinate(MAX_LONGITUDE_MICRODEGREES,')]),
 ('scanline-one-end', 'C01 C19', [(VT, '!initial_scanline_segment.on_segment(line_segment->get_endpoint_1()) &&\n            !initial_scanline_segment.on_segment(line_segment->get_endpoint_2())', '!initial_scanline_segment.on_segment(line_segment->get_endpoint_1())')]),
 ('scanline-both-ends', 'C02 C01 C19', [(VT, 'if (intersection.has_value() && !initial_scanline_segment.on_segment(line_segment->get_endpoint_1()) &&\n            !initial_scanline_segment.on_segment(line_segment->get_endpoint_2())) {', 'if (intersection.has_value()) {')]),
 ('no-barrier', 'C01 C19', [(VT, 'if (!barrier_polyline.point_visible(vertex_in_question)) {', 'if (false) {')]),
 ('barrier-eps', 'C01 C19', [(TP, '-EPSILON_TOLERANCE, 1 + EPSILON_TOLERANCE))\n        );\n    } else', '-EPSILON_TOLERANCE, 2 + EPSILON_TOLERANCE))\n        );\n    } else')]),
 ('barrier-reflex-collinear', 'C01 C19 C02', [(TP, 'v2v3_orientation == Orientation::COLLINEAR &&\n                    ThreeVertexPolyline', 'v2v3_orientation == Orientation::COLLINEAR && false &&\n                    ThreeVertexPolyline')]),
 ('barrier-convex-collinear', 'C01 C19', [(TP, '(v2v1_orientation == Orientation::COLLINEAR && v2v3_orientation == Orientation::COUNTER_CLOCKWISE &&', '(false && v2v1_orientation == Orientation::COLLINEAR && v2v3_orientation == Orientation::COUNTER_CLOCKWISE &&')]),
 ('reflex-float', 'C01 C02 C19', [(TP, 'return determinant < 0;', 'return static_cast<float>(determinant) < -1e-9f;')]),
 ('erase-after', 'C02 C19', [(VT, '        VistreeGenerator::erase_segments_from_open_edges(clockwise_segments, open_edges);\n\n        const auto curr', '        const auto curr'), (VT, '        VistreeGenerator::add_segments_to_open_edges(counter_clockwise_segments,', '        VistreeGenerator::erase_segments_from_open_edges(clockwise_segments, open_edges);\n        VistreeGenerator::add_segments_to_open_edges(counter_clockwise_segments,')]),
 ('erase-first-only', 'C02 C19', [(VT, '        open_edges.remove_edge(*segment);\n', '        open_edges.remove_edge(*segment);\n        if (segments.size() > 1 && segment->get_endpoint_1().get_longitude_microdegrees() == segment->get_endpoint_2().get_longitude_microdegrees()) return;\n')]),
 ('closest-only', 'C01 C19', [(OE, 'return std::any_of(_edges_sorted_by_distance.begin(), _edges_sorted_by_distance.end(),', 'return std::any_of(_edges_sorted_by_distance.begin(), _edges_sorted_by_distance.empty() ? _edges_sorted_by_distance.end() : std::next(_edges_sorted_by_distance.begin()),')]),
 ('obstruct-not-at-observer', 'C01 C19', [(OE, '!edge.on_segment(sight_line.get_endpoint_2());', '!edge.on_segment(sight_line.get_endpoint_2()) && !edge.on_segment(sight_line.get_endpoint_1());')]),
 ('add-edge-keeps', 'C02 C19', [(OE, '    remove_edge(segment);\n\n    _edges', '    _edges')]),
 ('remove-first-equal', 'C01 C02 C19', [(OE, 'if (iter->second == segment) {', 'if (iter->second.get_endpoint_1() == segment.get_endpoint_1()) {')]),
 ('visible-dedupe', 'C02 C19 C01', [(VT, '        if (curr_vertex_visible) {', '        if (curr_vertex_visible && (visible_vertices.empty() || visible_vertices.back().coord != coordinate_from_periodic_coordinate(current_vertex))) {')]),
 ('visible-skip-behind', 'C19 C02', [(VT, '        if (curr_vertex_visible) {', '        if (curr_vertex_visible && (visible_vertices.empty() || (visible_vertices.back().coord - observer).vector_orientation(current_vertex - observer) != Orientation::COLLINEAR)) {')]),
 # periodicity
 ('over-inclusive', 'C14 C02', [(CP, 'coordinate.get_longitude_microdegrees() > MAX_LONGITUDE_MICRODEGREES);', 'coordinate.get_longitude_microdegrees() >= MAX_LONGITUDE_MICRODEGREES);')]),
 ('periodic-two', 'C14 C02 C01', [(CP, 'for (const auto &polygon_vertices : periodic_polygon_coordinates) {\n            periodic_polygons.emplace_back(polygon_vertices);\n        }', 'for (size_t i = 0; i < 2; ++i) {\n            periodic_polygons.emplace_back(periodic_polygon_coordinates[i]);\n        }')]),
 ('period-360', 'C14 C02 C04', [('constants/constants.hpp', '360000001', '360000000')]),
 ('norm-keeps-180', 'C14', [(CP, 'while (adjusted_longitude > MAX_LONGITUDE_MICRODEGREES) {', 'while (adjusted_longitude >= MAX_LONGITUDE_MICRODEGREES) {')]),
 # routes
 ('radius-length', 'C05', [(SP, 'if (neighbor_direct_distance_to_source > maximum', 'if (neighbor_dist_to_source > maximum')]),
 ('radius-direct', 'C05', [(SP, 'const auto neighbor_direct_distance_to_source = heuristic_distance_measurement(corrected_source, neighbor);', 'const auto neighbor_direct_distance_to_source = distance_measurement(corrected_source, neighbor, false);')]),
 ('radius-of-top', 'C05', [(SP, 'heuristic_distance_measurement(corrected_source, neighbor);', 'heuristic_distance_measurement(corrected_source, top.node);')]),
 ('radius-not-dest', 'C05', [(SP, 'if (neighbor_direct_distance_to_source > maximum_distance_to_search_from_source ||', 'if ((neighbor != corrected_dest && neighbor_direct_distance_to_source > maximum_distance_to_search_from_source) ||')]),
 ('radius-to-dest', 'C05', [(SP, 'heuristic_distance_measurement(corrected_source, neighbor);', 'heuristic_distance_measurement(corrected_dest, neighbor);')]),
 ('partial-path', 'C05 C03', [(SP, '        if (prev_coord.find(curr_node) == prev_coord.end()) {\n', '        if (prev_coord.find(curr_node) == prev_coord.end()) {\n            if (!prev_coord.empty()) { path.push_back(corrected_source); std::reverse(path.begin(), path.end()); return path; }\n')]),
 ('closed-set', 'C04', [(SP, '(distances_to_source.find(neighbor) != distances_to_source.end() &&\n                 distances_to_source.at(neighbor) <= neighbor_dist_to_source)', '(distances_to_source.find(neighbor) != distances_to_source.end())')]),
 ('break-at-push', 'C04', [(SP, '            distances_to_source[neighbor] = neighbor_dist_to_source;\n', '            distances_to_source[neighbor] = neighbor_dist_to_source;\n            if (neighbor == corrected_dest) { while (!pq.empty()) pq.pop(); break; }\n')]),
 ('no-weight-cap', 'C04', [(SP, 'const AStarHeapElement &b) {\n        return (a.distance_to_source + a.heuristic_distance_to_destination * a_star_greediness_weighting) >\n               (b.distance_to_source + b.heuristic_distance_to_destination * a_star_greediness_weighting);', 'const AStarHeapElement &b) {\n        return (a.distance_to_source + a.heuristic_distance_to_destination * (1 + a_star_greediness_weighting)) >\n               (b.distance_to_source + b.heuristic_distance_to_destination * (1 + a_star_greediness_weighting));')]),
 ('dist-one-copy', 'C04', [(SP, 'return std::min((periodic_coordinates[1] - b).magnitude(), (periodic_coordinates[2] - b).magnitude());', 'return (periodic_coordinates[1] - b).magnitude();')]),
 ('dist-min-always', 'C04', [(SP, 'const auto edge_dist = distance_measurement(neighbor, top.node, meridian_spanning);', 'const auto edge_dist = heuristic_distance_measurement(neighbor, top.node);')]),
 ('flag-reversed', 'C04', [(SP, 'modified_graph->is_edge_meridian_crossing(top.node, neighbor);', 'top.node != corrected_source && modified_graph->is_edge_meridian_crossing(top.node, neighbor);')]),
 ('unnormalised-ends', 'C14 C03', [(SP, 'handle_land_collisions(normalized_source, normalized_destination, correct_vertices_on_land);', 'handle_land_collisions(normalized_source, destination, correct_vertices_on_land);')]),
 ('direct-first-two', 'C03', [(SP, '    for (const auto &intersection : intersections) {\n        if (', '    for (const auto &intersection : intersections) {\n        if (num_intersections_excluding_corrections < 1 && ')]),
 ('direct-if-one', 'C03', [(SP, 'if (num_intersections_excluding_corrections == 0 &&', 'if (num_intersections_excluding_corrections <= 1 &&')]),
 ('crossing-interior', 'C03 C21', [(SI, 'auto edges = query.GetCrossingEdges(p1, p2, S2CrossingEdgeQuery::CrossingType::ALL);', 'auto edges = query.GetCrossingEdges(p1, p2, S2CrossingEdgeQuery::CrossingType::INTERIOR);')]),
 ('base-edge-kept', 'C17', [(SP, '    auto modified_graph = std::make_shared<ModifiedGraph>(_graph);', '    if (_graph->has_vertex(correction.corrected_dest)) for (const auto &p : _vistree_gen.get_visible_vertices(correction.corrected_dest)) _graph->add_edge(correction.corrected_dest, p.coord, p.is_visible_across_meridian);\n    auto modified_graph = std::make_shared<ModifiedGraph>(_graph);')]),
 ('memo-source', 'C17 C06', [(SP, '    const auto modified_graph = create_modified_graph(land_corrections);', '    static thread_local std::shared_ptr<IGraph> memo; static thread_local Coordinate ms, md; static thread_local const void *mt = nullptr;\n    if (!(mt == _graph.get() && ms == corrected_source && memo && memo->has_vertex(corrected_dest))) { memo = create_modified_graph(land_corrections); ms = corrected_source; mt = _graph.get(); }\n    const auto modified_graph = memo;')]),
 ('batch-shared-overlay', 'C06', [(SP, '        try {\n            paths[i]', '        try {\n            if (i > 0 && source_dest_pairs[i].first == source_dest_pairs[i - 1].first && paths[i - 1].error_msg) { paths[i] = paths[i - 1]; continue; }\n            paths[i]')]),
 ('batch-both', 'C06', [(SP, '                .path = std::nullopt,\n', '                .path = std::make_optional(std::vector<Coordinate>()),\n')]),
 ('batch-default-weight', 'C06', [(SP, '                        correct_vertices_on_land,\n                        a_star_greediness_weighting\n', '                        correct_vertices_on_land\n')]),
 ('batch-stop-at-error', 'C06', [(SP, '                .error_msg = std::string(e.what())\n            };', '                .error_msg = std::string(e.what())\n            };\n            if (i + 1 < paths.size() && source_dest_pairs[i + 1].first == source_dest_pairs[i].first) paths[i + 1].error_msg = e.what();')]),
 ('both-on-source', 'C15', [(SP, 'const auto destination_is_on_land = _index.is_point_contained(destination);', 'const auto destination_is_on_land = _index.is_point_contained(destination) && destination != source;')]),
 ('wrong-edge', 'C15', [(SP, 'const auto closest_seg = _index.closest_segment_to_point(destination);', 'const auto closest_seg = _index.closest_segment_to_point(corrected_source);')]),
 ('no-margin', 'C15', [(LS, 'projected_point + (diff / diff_magn * margin)', 'projected_point')]),
 ('margin-back', 'C15', [(LS, 'projected_point + (diff / diff_magn * margin)', 'projected_point - (diff / diff_magn * margin)')]),
 ('shore-blocks-none', 'C15', [(SP, 'if (!blocking_edges[i].has_value() ||', 'if (true || !blocking_edges[i].has_value() ||')]),
 ('shore-ends-lost', 'C15', [(SP, 'point.coord == blocking_edges[i].value().get_endpoint_1() ||\n', 'false ||\n')]),
 ('refuse-only-source', 'C15', [(SP, '(source_is_on_land || destination_is_on_land)) {', '(source_is_on_land)) {')]),
 ('graph-if-either', 'C03 C05 C04', [(SP, 'if (_graph->has_vertex(correction.corrected_source) && _graph->has_vertex(correction.corrected_dest)) {', 'if (_graph->has_vertex(correction.corrected_source) && (_graph->has_vertex(correction.corrected_dest) || _graph->get_neighbors(correction.corrected_source).size() > 30)) {')]),
 # the overlay
 ('overlay-flag', 'C11', [(MG, 'meridian_crossing && (!base_has_edge(a, b) || _graph->is_edge_meridian_crossing(a, b))', 'meridian_crossing')]),
 ('overlay-dup', 'C11', [(MG, 'if (std::find(neighbors.begin(), neighbors.end(), neighbor.first) == neighbors.end()) {', 'if (true) {')]),
 ('overlay-removed-seen', 'C11', [(MG, '.relationship == NeighborRelationship::EDGE_PRESENT;\n}', '.relationship == NeighborRelationship::EDGE_PRESENT || base_has_edge(a, b);\n}')]),
 ('overlay-verts-dup', 'C11', [(MG, '        if (!_graph->has_vertex(neighbor.first)) {\n            base', '        {\n            base')]),
 # files
 ('file-count16', 'C07 C24', [(SE, 'std::atomic<uint64_t> current_meridian_spanning_edge = 0;', 'std::atomic<uint8_t> current_meridian_spanning_edge = 0;')]),
 ('file-number32', 'C07', [(SE, 'const uint64_t edge_number = j + (((i * i) + i) / 2);', 'const uint16_t edge_number16 = j + (((i * i) + i) / 2); const uint64_t edge_number = edge_number16;'), (SE, 'const auto edge_index = neighbor_index + (((i * i) + i) / 2);', 'const uint64_t edge_index = static_cast<uint16_t>(neighbor_index + (((i * i) + i) / 2));')]),
 ('file-number-both', 'C24', [(SE, 'const uint64_t edge_number = j + (((i * i) + i) / 2);', 'const uint64_t edge_number = j + (((i * i) - i) / 2);'), (SE, 'const auto edge_index = neighbor_index + (((i * i) + i) / 2);', 'const auto edge_index = neighbor_index + (((i * i) - i) / 2);')]),
 ('file-big-endian', 'C24', [(SE, 'uint8_t byte = (val >> (byte_num * BITS_IN_A_BYTE)) & 0xFFu;', 'uint8_t byte = (val >> ((sizeof(val) - 1 - byte_num) * BITS_IN_A_BYTE)) & 0xFFu;'), (SE, '<< (i * BITS_IN_A_BYTE));', '<< ((sizeof(val) - 1 - i) * BITS_IN_A_BYTE));')]),
 ('file-lastbit', 'C07', [(SE, 'std::min((j + 1) * BITS_IN_A_BYTE, i + 1)', 'std::min((j + 1) * BITS_IN_A_BYTE - (i > 60 ? 1 : 0), i + 1)')]),
 ('file-append', 'C07', [(SE, '    if (ftruncate(fd, num_bytes) != 0) {', '    if (lseek(fd, 0, SEEK_END) < static_cast<off_t>(num_bytes) && ftruncate(fd, num_bytes) != 0) {')]),
 # notation
 ('spike-removed', 'C13', [(PG, 'if (!ab.parallel(bc) || ab.scalar_multiple_factor(bc).value() < 0) {', 'if (!ab.parallel(bc)) {')]),
 ('winding-float', 'C13', [(PG, '    double winding_sum = 0;', '    float winding_sum = 0;')]),
 ('one-closing', 'C13', [(PG, 'while (vertices.size() > 1 && vertices.front() == vertices.back())', 'if (vertices.size() > 1 && vertices.front() == vertices.back())')]),
 ('parallel-double', 'C13 C20', [(CO, 'return this->vector_orientation(other) == Orientation::COLLINEAR;', 'return std::abs(cross_product_magnitude(other)) < 1e-9;')]),
 ('orientation-double', 'C23 C20 C02', [(CO, 'const auto cross_prod = cross_product_magnitude_microdegrees(v2);', 'const auto cross_prod = std::abs(cross_product_magnitude(v2)) < 1e-10 ? 0 : cross_product_magnitude(v2);')]),
 ('angle-float', 'C20 C19', [(CO, 'auto arctan = std::atan2(latitude, longitude);', 'auto arctan = static_cast<double>(std::atan2(static_cast<float>(latitude), static_cast<float>(longitude)));')]),
 ('dot-int32', 'C20', [(CO, '    const auto longitude = get_longitude_microdegrees_long();\n    const auto latitude = get_latitude_microdegrees_long();\n    const auto other_longitude = other.get_longitude_microdegrees_long();\n    const auto other_latitude = other.get_latitude_microdegrees_long();\n\n    return (longitude * other_longitude) + (latitude * other_latitude);', '    const auto longitude = get_longitude_microdegrees();\n    const auto latitude = get_latitude_microdegrees();\n    const auto other_longitude = other.get_longitude_microdegrees();\n    const auto other_latitude = other.get_latitude_microdegrees();\n\n    return (longitude * other_longitude) + (latitude * other_latitude);')]),
 ('sort-no-dot', 'C20 C19', [(AS, '!= Orientation::COLLINEAR || dotprod < 0)', '!= Orientation::COLLINEAR)')]),
 ('sort-manhattan', 'C20', [(AS, 'return v1.magnitude_squared() < v2.magnitude_squared();', 'return std::abs(v1.get_longitude()) < std::abs(v2.get_longitude());')]),
 ('area-double', 'C23', [(LS, 'const auto signed_area = (point_2_lon - point_1_lon) * (point_lat - point_1_lat) -\n                             (point_2_lat - point_1_lat) * (point_lon - point_1_lon);', 'const double signed_area = static_cast<double>((point_2_lon - point_1_lon) * (point_lat - point_1_lat)) -\n                             static_cast<double>((point_2_lat - point_1_lat) * (point_lon - point_1_lon));')]),
 ('meet-no-bound', 'C23', [(LS, '            std::abs(D) < std::abs(Qx) ||\n', '')]),
 ('meet-no-bound-y', 'C23', [(LS, ' ||\n            std::abs(D) < std::abs(Qy)) {', ') {')]),
 ('meet-trunc', 'C23', [(CO, 'static_cast<int32_t>(std::round(_longitude_microdegrees * scalar))', 'static_cast<int32_t>(_longitude_microdegrees * scalar)')]),
 ('onseg-lon', 'C23', [(LS, ' &&\n           ((_endpoint_1.get_latitude() <= point.get_latitude() &&', ' ||\n           ((_endpoint_1.get_latitude() <= point.get_latitude() &&')]),
 ('seg-eq-directed', 'C23', [(LS, ' ||\n           ((_endpoint_1 == other._endpoint_2) && (_endpoint_2 == other._endpoint_1))', '')]),
 # the index
 ('sort-endpoint', 'C21', [(SI, 'return S2::GetDistance(p1, e1.v0(), e1.v1()) < S2::GetDistance(p1, e2.v0(), e2.v1());', 'return S1ChordAngle(p1, e1.v0()) < S1ChordAngle(p1, e2.v0());')]),
 ('closest-interior', 'C21 C15', [(SI, '    query.mutable_options()->set_max_results(1);\n    query.mutable_options()->set_include_interiors(false);', '    query.mutable_options()->set_max_results(1);')]),
 ('within-one', 'C21', [(SI, '    query.mutable_options()->set_max_distance(S1Angle::Radians(distance_in_radians));', '    query.mutable_options()->set_max_distance(S1Angle::Radians(distance_in_radians)); query.mutable_options()->set_max_results(8);')]),
 ('within-sparse', 'C21', [(SI, '    query.mutable_options()->set_max_distance(S1Angle::Radians(distance_in_radians));', '    query.mutable_options()->set_inclusive_max_distance(S1Angle::Radians(distance_in_radians)); query.mutable_options()->set_max_error(S1Angle::Radians(distance_in_radians / 20));')]),
 # python
 ('bind-weight', 'C18', [(BI, 'return self.shortest_paths(source_dest_pairs, maximum_distance_to_search_from_source,\n                                           correct_vertices_on_land, a_star_greediness_weighting);', 'return self.shortest_paths(source_dest_pairs, maximum_distance_to_search_from_source,\n                                           correct_vertices_on_land);')]),
 ('batch-py-weight', 'C18', [(PI, 'coord_pairs, search_distance_from_source_limit, correct_vertices_on_land, a_star_greediness_weighting\n        )\n\n        interp', 'coord_pairs, search_distance_from_source_limit, correct_vertices_on_land\n        )\n\n        interp')]),
 ('batch-py-drop', 'C18', [(PI, '                interpolated_paths.append(None)\n', '')]),
 ('py-limit-default', 'C18', [(PI, 'search_distance_from_source_limit: float = math.inf,\n        correct_vertices_on_land: bool = False,\n        a_star_greediness_weighting: float = 1.0,\n    ) -> typing.Sequence[typing.Optional', 'search_distance_from_source_limit: float = 100.0,\n        correct_vertices_on_land: bool = False,\n        a_star_greediness_weighting: float = 1.0,\n    ) -> typing.Sequence[typing.Optional')]),
 ('merge-overwrites', 'C18', [(GM, 'os.mkdir(output_graph_file)', 'os.makedirs(output_graph_file, exist_ok=True)')]),
 ('gen-overwrites', 'C18', [(GG, '    def generate(self, shape_file_path: str, output_path: str) -> None:\n        os.mkdir(output_path)', '    def generate(self, shape_file_path: str, output_path: str) -> None:\n        os.makedirs(output_path, exist_ok=True)')]),
 ('split-round', 'C18', [(GG, 'split_size = num_vertices // num_splits', 'split_size = round(num_vertices / num_splits)')]),
 ('split-last', 'C18', [(GG, 'if current_split_num < num_splits - 1 else num_vertices', 'if current_split_num < num_splits else num_vertices')]),
 ('read-startswith', 'C22', [(SR, 'if shape.shapeTypeName != "POLYGON":', 'if not shape.shapeTypeName.startswith("POLYGON"):')]),
 ('read-ge3', 'C22', [(SR, 'if len(current_part) > 3:', 'if len(current_part) >= 4 + (len(shape.parts) > 2):')]),
 ('read-all-parts', 'C22', [(SR, '                        break\n', '                        part_i += 1\n')]),
]
