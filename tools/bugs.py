PRE='''import os, sys, tempfile, shutil
sys.path.insert(0, os.getcwd())
from capi.src.implementation.visibility_graphs import (VisGraph, VisGraphCoord, VisGraphPolygon,
    VisGraphShortestPathComputer, VistreeGenerator, generate_visgraph, generate_visgraph_with_shuffled_range,
    load_graph_from_file, merge_graphs, save_graph_to_file)


def C(lon, lat):
    return VisGraphCoord(lon + (3e-7 if lon >= 0 else -3e-7), lat + (3e-7 if lat >= 0 else -3e-7))


def P(*cs):
    return VisGraphPolygon([C(*c) for c in cs])


def T(c):
    return (round(c.longitude, 6), round(c.latitude, 6))


def expect(ok, *what):
    if not ok:
        print('WRONG', *what)
        sys.stdout.flush()
        os._exit(1)


'''
CPPSH='''#!/bin/bash
# Run in the root of the repository after its build: compiles the library's sources with demo.cpp and runs it
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"
trap 'rm -rf "$out"' EXIT
L=capi/cpp_libs
I="-std=c++17 -O0 -fopenmp -w -Icapi/src/implementation/visibility_graphs/code -I$L/fmt/include -I$L/indicators/include -I$L/mio"
i=0
for f in $(find capi/src/implementation/visibility_graphs/code -name '*.cpp') $L/fmt/src/format.cc $L/fmt/src/os.cc "$here/demo.cpp"; do
    i=$((i+1))
    (g++ $I -c "$f" -o "$out/$i.o" || touch "$out/failed") &
    if [ $((i % 8)) -eq 0 ]; then wait; fi
done
wait
[ -e "$out/failed" ] && exit 9
g++ -fopenmp "$out"/*.o /usr/lib/x86_64-linux-gnu/libs2.so -ldl -lpthread -o "$out/demo" || exit 9
cd "$out" && timeout 120 ./demo
'''
CPPPRE='''#include <algorithm>
#include <omp.h>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <random>
#include <thread>
#include <vector>

#include "coordinate_periodicity/coordinate_periodicity.hpp"
#include "datastructures/graph/graph.hpp"
#include "datastructures/modified_graph/modified_graph.hpp"
#include "datastructures/spatial_segment_index/spatial_segment_index.hpp"
#include "geom/angle_sorter/angle_sorter.hpp"
#include "serialization/graph_serializer.hpp"
#include "shortest_path/shortest_path_computer.hpp"
#include "visgraph/visgraph_generator.hpp"
#include "visgraph/vistree_generator.hpp"

static Coordinate C(int32_t lon, int32_t lat) { return Coordinate(lon, lat); }
static void expect(bool ok, const char *what) {
    if (!ok) {
        printf("WRONG %s\\n", what);
        fflush(stdout);
        _Exit(1);
    }
}

'''
B={}
B['zero-bytes-not-written']=dict(property='C07',
 edits=[('serialization/graph_serializer.cpp','''            serialize_to_mmap(mmap, adjacency_encoding, adjacency_matrix_byte_offsets[i] + (j * sizeof(uint8_t)));''',
 '''            if (adjacency_encoding != 0x0) { // A freshly allocated file is filled with zeros
                serialize_to_mmap(mmap, adjacency_encoding, adjacency_matrix_byte_offsets[i] + (j * sizeof(uint8_t)));
            }''')],
 needs='saving to a file that already holds something else',
 breaks='bytes of the adjacency matrix that are zero keep what the file held before, so edges of the old graph come back',
 py='''
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'graph')
    polys = [P((0.0, 0.0), (1.0, 0.0), (0.0, 1.0)), P((10.0, 0.0), (11.0, 0.0), (10.0, 1.0))]
    save_graph_to_file(generate_visgraph(polys), f)
    empty = VisGraph(polys)
    save_graph_to_file(empty, f)
    expect(load_graph_from_file(f) == empty, 'edges of the overwritten graph are back')
finally:
    shutil.rmtree(d)
''')
B['remove-locks-in-call-order']=dict(property='C12', count=1,
 edits=[('datastructures/graph/graph.cpp','''    // Lock order prevents deadlock
    if (a_index < b_index) {
        a_lock.lock();
        b_lock.lock();
    } else {
        b_lock.lock();
        a_lock.lock();
    }

    size_t index = a_index + (_num_coords * b_index);
    _neighbors[index] = EdgeState::DISCONNECTED;''','''    a_lock.lock();
    b_lock.lock();

    size_t index = a_index + (_num_coords * b_index);
    _neighbors[index] = EdgeState::DISCONNECTED;''')],
 needs='two threads that remove (or remove and add) edges between the same vertices in opposite directions at the same moment',
 breaks='removal locks its vertices in the order of the call, so it can deadlock with another operation on the same pair',
 cpp='''
int main() {
    auto g = Graph({Polygon({C(0, 0), C(1000000, 0), C(0, 1000000)})});
    std::vector<std::thread> ts;
    for (int k = 0; k < 8; ++k)
        ts.emplace_back([&g, k] {
            for (int i = 0; i < 200000; ++i) {
                if (k % 2)
                    g.remove_directed_edge(C(0, 0), C(1000000, 0));
                else
                    g.remove_directed_edge(C(1000000, 0), C(0, 0));
            }
        });
    std::thread([] {
        std::this_thread::sleep_for(std::chrono::seconds(60));
        expect(false, "the threads hang");
    }).detach();
    for (auto &t : ts)
        t.join();
    return 0;
}
''')
B['normalised-by-one-turn']=dict(property='C14',
 edits=[('coordinate_periodicity/coordinate_periodicity.cpp','    while (adjusted_longitude > MAX_LONGITUDE_MICRODEGREES) {','    if (adjusted_longitude > MAX_LONGITUDE_MICRODEGREES) {')],
 needs='a longitude more than one turn east of the ordinary range',
 breaks='only one turn is taken off, so the longitude stays outside -180..180 and the answer with it',
 py='''
c = VisGraphShortestPathComputer(VisGraph([P((0.0, 0.0), (1.0, 0.0), (0.0, 1.0))]))
p = c.shortest_path(C(740.0 + 3e-6, 20.0), C(30.0, 20.0), 1e9, False, 1.0)
expect(abs(p[0].longitude - 20.0) < 1e-4, 'the path starts at', p[0].longitude)
''')
B['heuristic-ignores-meridian']=dict(property='C04',
 edits=[('shortest_path/shortest_path_computer.cpp','''                .heuristic_distance_to_destination = heuristic_distance_measurement(neighbor, corrected_dest),''',
 '''                .heuristic_distance_to_destination = distance_measurement(neighbor, corrected_dest, false),''')],
 needs='a route across the antimeridian with an alternative whose vertices lie on the other side of it',
 breaks='the heuristic overestimates across the antimeridian, so the search ends with a route that is not the shortest',
 py='''
import random
rng = random.Random(5)


def D(a, b):
    x = abs(a[0] - b[0])
    return (min(x, 360.000001 - x) ** 2 + (a[1] - b[1]) ** 2) ** .5


# walls along the antimeridian: the northern way round is shorter, but its vertices lie west of 180
east = P((179.9, -6.0), (179.95, -6.0), (179.95, 4.0), (179.9, 4.0))
west = P((-179.95, -5.0), (-179.9, -5.0), (-179.9, 4.5), (-179.95, 4.5))
polys = [east, west]
c = VisGraphShortestPathComputer(generate_visgraph(polys))
for _ in range(400):
    s, d = (179.0 + rng.random() * .8, rng.uniform(-3, 3)), (-179.0 - rng.random() * .8, rng.uniform(-3, 3))
    try:
        a = [T(x) for x in c.shortest_path(C(*s), C(*d), 1e9, False, 1.0)]
        b = [T(x) for x in c.shortest_path(C(*s), C(*d), 1e9, False, 0.0)]
    except RuntimeError:
        continue
    la, lb = (sum(D(p, q) for p, q in zip(x, x[1:])) for x in (a, b))
    expect(la <= lb + 1e-6, 'A* found', a, la, 'Dijkstra', b, lb)
''')
B['second-point-on-land-kept']=dict(property='C15',
 edits=[('shortest_path/shortest_path_computer.cpp','''    if (destination_is_on_land) {
        const auto closest_seg''','''    else if (destination_is_on_land) {
        const auto closest_seg''')],
 needs='source and destination both on land with correction requested',
 breaks='only the source is moved to the shore; the route ends on land',
 py='''
c = VisGraphShortestPathComputer(generate_visgraph([P((0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)), P((3.0, 0.0), (4.0, 0.0), (4.0, 1.0), (3.0, 1.0))]))
try:
    p = c.shortest_path(C(0.9, 0.5), C(3.1, 0.5), 1e9, True, 1.0)
except RuntimeError as e:
    expect(False, 'no route', e)
expect(p[-1].longitude < 3.001, 'the route ends on land at', T(p[-1]))
''')
B['vertex-counts-as-land']=dict(property='C21',
 edits=[('datastructures/spatial_segment_index/spatial_segment_index.cpp','S2VertexModel::OPEN','S2VertexModel::SEMI_OPEN')],
 needs='a point that is exactly a vertex of a polygon',
 breaks='some vertices count as contained in their polygon',
 cpp='''
int main() {
    std::mt19937 gen(1);
    std::uniform_int_distribution<int> at(-90000000, 90000000);
    for (int k = 0; k < 50; ++k) {
        const int x = at(gen), y = at(gen) / 2;
        const std::vector<Coordinate> vs{C(x, y), C(x + 30000, y), C(x + 30000, y + 20000), C(x, y + 20000)};
        const auto index = SpatialSegmentIndex({Polygon(vs)});
        for (const auto &v : vs)
            expect(!index.is_point_contained(v), "a vertex of a polygon counts as inside it");
    }
    return 0;
}
''')
B['radius-of-the-way']=dict(property='C05',
 edits=[('shortest_path/shortest_path_computer.cpp','if (neighbor_direct_distance_to_source > maximum_distance_to_search_from_source ||','if (std::max(neighbor_direct_distance_to_source, top.distance_to_source) > maximum_distance_to_search_from_source ||')],
 needs='a radius that holds all vertices of a winding route, but is shorter than the route up to one of them',
 breaks='vertices inside the search radius are given up once the way to them is longer than the radius',
 py='''
# a comb of walls: the way goes up and down between them, though nothing is far away
walls = [P((0.5, -0.1), (0.6, -0.1), (0.6, 3.0), (0.5, 3.0)), P((1.0, -3.0), (1.1, -3.0), (1.1, 0.1), (1.0, 0.1)),
         P((1.5, -0.1), (1.6, -0.1), (1.6, 3.0), (1.5, 3.0)),
         P((-1.0, 3.0), (3.0, 3.0001), (3.0, 3.5), (-1.0, 3.5)), P((-1.0, -3.5), (3.0, -3.5), (3.0, -3.0001), (-1.0, -3.0))]
# leave gaps of the walls closed at their outer ends: they overlap in no point, but a path through is too long to matter
walls[0] = P((0.5, -2.0), (0.6, -2.0), (0.6, 2.9), (0.5, 2.9))
walls[1] = P((1.0, -2.9), (1.1, -2.9), (1.1, 2.0), (1.0, 2.0))
walls[2] = P((1.5, -2.0), (1.6, -2.0), (1.6, 2.9), (1.5, 2.9))
c = VisGraphShortestPathComputer(generate_visgraph(walls[:3]))
try:
    p = c.shortest_path(C(0.0, 0.0), C(2.0, 0.0), 2.6, False, 1.0)
except RuntimeError as e:
    expect(False, 'no route within 2.6, but there is one:', e)
expect(len(p) > 3, [T(x) for x in p])
''')
B['batch-answers-shared']=dict(property='C06',
 edits=[('shortest_path/shortest_path_computer.cpp','''    auto paths = std::vector<BatchInterpolateResult>(source_dest_pairs.size());

#pragma''','''    auto paths = std::vector<BatchInterpolateResult>(source_dest_pairs.size());

    // Queries that are asked several times are only answered once
    auto first_occurrences = std::unordered_map<std::size_t, std::size_t>();
    auto first_occurrence = std::vector<std::size_t>(source_dest_pairs.size());
    for (std::size_t i = 0; i < source_dest_pairs.size(); ++i) {
        const auto key = std::hash<Coordinate>()(source_dest_pairs[i].first) ^ std::hash<Coordinate>()(source_dest_pairs[i].second);
        first_occurrence[i] = first_occurrences.emplace(key, i).first->second;
    }

#pragma'''),('shortest_path/shortest_path_computer.cpp','''correct_vertices_on_land, a_star_greediness_weighting) default(none) schedule(dynamic)
    for (size_t i = 0; i < source_dest_pairs.size(); ++i) {
''','''correct_vertices_on_land, a_star_greediness_weighting, first_occurrence) default(none) schedule(dynamic)
    for (size_t i = 0; i < source_dest_pairs.size(); ++i) {
        if (first_occurrence[i] != i) {
            continue;
        }
'''),('shortest_path/shortest_path_computer.cpp','''    return paths;
}

double ShortestPathComputer::distance''','''    for (std::size_t i = 0; i < source_dest_pairs.size(); ++i) {
        paths[i] = paths[first_occurrence[i]];
    }

    return paths;
}

double ShortestPathComputer::distance''')],
 needs='a batch that holds a query and the same one with source and destination exchanged',
 breaks='repeated queries are recognised by a key that does not tell a pair from its reverse, so the latter gets the path of the former',
 py='''
c = VisGraphShortestPathComputer(generate_visgraph([P((0.0, 0.0), (1.0, 0.0), (0.5, 1.0))]))
a, b = C(-1.0, 0.3), C(2.0, 0.3)
r = c.shortest_paths([(a, b), (b, a), (a, b)], 1e9, False, 1.0)
for (s, d), x in zip([(a, b), (b, a), (a, b)], r):
    expect(x.error_msg is None and x.path is not None, x.error_msg)
    expect(T(x.path[0]) == T(s) and T(x.path[-1]) == T(d), 'asked from', T(s), 'answered from', T(x.path[0]))
''')
B['overlay-forgets-removal']=dict(property='C11',
 edits=[('datastructures/modified_graph/modified_graph.cpp','''    _neighbors[a][b] = NeighborInfo { .is_meridian_crossing = false, .relationship = NeighborRelationship::EDGE_REMOVED };''',
 '''    const auto modification = _neighbors[a].find(b);
    if (modification != _neighbors[a].end() && modification->second.relationship == NeighborRelationship::EDGE_PRESENT) {
        // The edge was added on top of the base graph, so the modification is taken back
        _neighbors[a].erase(modification);
        return;
    }

    _neighbors[a][b] = NeighborInfo { .is_meridian_crossing = false, .relationship = NeighborRelationship::EDGE_REMOVED };''')],
 needs='an edge of the base that is added again in the overlay and then removed there',
 breaks='removing such an edge brings the edge of the base back',
 cpp='''
int main() {
    const auto a = C(0, 0), b = C(1000000, 0);
    auto base = std::make_shared<Graph>(std::vector<Polygon>{Polygon({a, b, C(0, 1000000)})});
    base->add_edge(a, b, false);
    auto over = ModifiedGraph(base);
    over.add_edge(a, b, false);
    over.remove_edge(a, b);
    expect(!over.has_edge(a, b), "a removed edge is still there");
    expect(over.get_neighbors(a).empty(), "a removed edge is still among the neighbours");
    return 0;
}
''')
B['text-of-five-digits']=dict(property='C16',
 edits=[('datastructures/graph/graph.cpp','"\\t[({}, {}) ["','"\\t[({:.5f}, {:.5f}) ["'),('datastructures/graph/graph.cpp','"({}, {}, meridian_span: {}) "','"({:.5f}, {:.5f}, meridian_span: {}) "')],
 needs='two graphs with vertices that differ by a microdegree',
 breaks='coordinates are written with five digits, so graphs that differ in the sixth are equal',
 py='''
g = VisGraph([P((0.0, 0.0), (1.0, 0.0), (0.0, 1.0))])
h = VisGraph([P((0.0, 0.0), (1.000001, 0.0), (0.0, 1.0))])
expect(g != h and not (g == h), 'different graphs are equal')
''')
B['last-answer-kept']=dict(property='C17',
 edits=[('shortest_path/shortest_path_computer.cpp','''    const auto modified_graph = create_modified_graph(land_corrections);
''','''    // Often the same detour is asked for again
    thread_local std::pair<const void *, std::pair<Coordinate, Coordinate>> last_query;
    thread_local std::vector<Coordinate> last_path;
    const auto query = std::make_pair(static_cast<const void *>(_graph.get()), std::make_pair(corrected_source, corrected_dest));
    if (!last_path.empty() && last_query == query) {
        return last_path;
    }

    const auto modified_graph = create_modified_graph(land_corrections);
'''),('shortest_path/shortest_path_computer.cpp','''    std::reverse(path.begin(), path.end());

    return path;''','''    std::reverse(path.begin(), path.end());
    last_query = query;
    last_path = path;

    return path;''')],
 needs='the same two points asked about twice in a row, the second time with a smaller radius (or another weighting)',
 breaks='the answer of the former query is returned without regard to the options, so the outcome depends on what was asked before',
 py='''
c = VisGraphShortestPathComputer(generate_visgraph([P((0.0, -5.0), (1.0, -5.0), (1.0, 5.0), (0.0, 5.0))]))
a, b = C(-1.0, 0.3), C(2.0, 0.3)


def ask(radius):
    try:
        return [T(x) for x in c.shortest_path(a, b, radius, False, 1.0)]
    except RuntimeError:
        return None


before = ask(3.5)
ask(1e9)
expect(ask(3.5) == before, 'the same query has another outcome after a query without a radius')
''')
B['split-rounded']=dict(property='C18',
 edits=[('capi/src/implementation/graph_generator.py','split_size = num_vertices // num_splits','split_size = round(num_vertices / num_splits)')],
 needs='a number of splits for which the rounded size of a shard, taken once for each, exceeds the number of vertices',
 breaks='the last shards leave the range of vertices, so they fail (and vertices are missing from what can be merged)',
 py='''
import struct
from capi.src.implementation.graph_generator import GraphGenerator
from capi.src.implementation.datastructures.polygon import Polygon
from capi.src.implementation.dtos.coordinate import Coordinate


class Reader:
    def read(self, path):
        return [Polygon(vertices=[Coordinate(longitude=x, latitude=y) for x, y in [(0.0, 0.0), (4.0, -1.0), (5.0, 0.0), (5.0, 1.0), (4.0, 2.0), (3.0, 2.5),
                                                                                 (2.0, 2.7), (1.0, 2.8), (-1.0, 2.0), (-2.0, 1.0), (-1.5, 0.3)]])]


d = tempfile.mkdtemp()
try:
    for n in (1, 2, 3, 5, 7, 11, 12):
        for k in range(n):
            try:
                GraphGenerator(Reader()).generate_for_vertex_range('', os.path.join(d, '%d_%d' % (n, k)), k, n, 42)
            except RuntimeError as e:
                expect(False, 'shard', k, 'of', n, 'fails:', e)
finally:
    shutil.rmtree(d)
''')
B['nearest-first-corner']=dict(property='C21',
 edits=[('datastructures/spatial_segment_index/spatial_segment_index.cpp','return S2::GetDistance(p1, e1.v0(), e1.v1()) < S2::GetDistance(p1, e2.v0(), e2.v1());','return S1ChordAngle(p1, e1.v0()) < S1ChordAngle(p1, e2.v0());')],
 needs='a segment that crosses a long edge with its first corner far away, and then a short one',
 breaks='the edges a segment crosses are ordered by the distance of their first corners, not of the edges',
 cpp='''
int main() {
    const std::vector<Polygon> polygons{Polygon({C(100000, -5000), C(110000, -5000), C(110000, 900000), C(100000, 900000)}),
                                        Polygon({C(200000, -5000), C(210000, -5000), C(210000, 5000), C(200000, 5000)})};
    const auto index = SpatialSegmentIndex(polygons);
    const auto from = C(0, 100), to = C(300000, 90);
    const auto edges = index.intersect_with_segments(LineSegment(from, to));
    expect(edges.size() == 4, "not four edges");
    for (size_t i = 1; i < edges.size(); ++i)
        expect(std::max(edges[i - 1].get_endpoint_1().get_longitude_microdegrees(), edges[i - 1].get_endpoint_2().get_longitude_microdegrees()) <
                   std::max(edges[i].get_endpoint_1().get_longitude_microdegrees(), edges[i].get_endpoint_2().get_longitude_microdegrees()),
               "the nearest edge is not the first");
    return 0;
}
''')
B['parts-run-together']=dict(property='C22',
 edits=[('capi/src/implementation/shapefiles/shapefile_reader.py','''                        break
                    current''','''                        if len(current_part) > 3:
                            break
                        current_part = []
                        part_i += 1
                    current''')],
 needs='a polygon record with a first ring of fewer than three corners and a further one',
 breaks='a further ring is read as a polygon when the first one is too small',
 py='''
import struct
from capi.src.implementation.shapefiles.shapefile_reader import ShapefileReader
d = tempfile.mkdtemp()
try:
    parts = [[(0.0, 0.0), (1.0, 0.0), (0.0, 0.0)], [(5.0, 5.0), (5.0, 6.0), (6.0, 6.0), (5.0, 5.0)]]
    pts = [p for q in parts for p in q]
    r = struct.pack('<i4dii', 5, 0, 0, 6, 6, 2, len(pts)) + struct.pack('<ii', 0, 3) + b''.join(struct.pack('<dd', *p) for p in pts)
    head = lambda n: struct.pack('>7i', 9994, 0, 0, 0, 0, 0, (100 + n) // 2) + struct.pack('<ii8d', 1000, 5, 0, 0, 6, 6, 0, 0, 0, 0)
    with open(os.path.join(d, 'a.shp'), 'wb') as f:
        f.write(head(8 + len(r)) + struct.pack('>ii', 1, len(r) // 2) + r)
    with open(os.path.join(d, 'a.shx'), 'wb') as f:
        f.write(head(8) + struct.pack('>ii', 50, len(r) // 2))
    expect(ShapefileReader().read(os.path.join(d, 'a.shp')) == [], 'a further ring was read as a polygon')
finally:
    shutil.rmtree(d)
''')
B['meeting-point-cut']=dict(property='C23',
 edits=[('types/coordinate/coordinate.cpp','static_cast<int32_t>(std::round(_longitude_microdegrees * scalar))','static_cast<int32_t>(static_cast<float>(_longitude_microdegrees * scalar))')],
 needs='a meeting point more than some ten degrees away from the end of its segment',
 breaks='the longitude of the meeting point goes through single precision and is off by several microdegrees',
 cpp='''
int main() {
    for (int k = 1; k < 60; ++k) {
        // a long level segment and an upright one through it
        const int x = 100000000 + 1000003 * k;
        const auto p = LineSegment(C(-170000000, 1000), C(179999999, 1000)).intersection_with_segment(LineSegment(C(x, 0), C(x, 5000)));
        expect(p.has_value(), "they meet");
        expect(std::abs(p->get_longitude_microdegrees() - x) <= 1, "they meet elsewhere");
    }
    return 0;
}
''')
B['touching-is-not-crossing']=dict(property='C03', count=1,
 edits=[('datastructures/spatial_segment_index/spatial_segment_index.cpp','''    std::vector<LineSegment> result;
    auto edges = query.GetCrossingEdges(p1, p2, S2CrossingEdgeQuery::CrossingType::ALL);''','''    std::vector<LineSegment> result;
    auto edges = query.GetCrossingEdges(p1, p2, S2CrossingEdgeQuery::CrossingType::INTERIOR);''')],
 needs='a straight line between source and destination that enters and leaves land exactly at vertices',
 breaks='such a line crosses no edge in its interior, so it is returned as the path though it leads through the land',
 py='''
# a lozenge whose corners lie on the meridian of source and destination
c = VisGraphShortestPathComputer(generate_visgraph([P((0.0, 1.0), (0.5, 1.5), (0.0, 2.0), (-0.5, 1.5))]))
for s, d in [(C(0.0, 0.0), C(0.0, 3.0)), (C(0.0, 3.0), C(0.0, 0.0)), (C(0.0, 1.0), C(0.0, 3.0)), (C(0.0, 0.0), C(0.0, 2.0)), (C(0.0, 1.0), C(0.0, 2.0))]:
    p = [T(x) for x in c.shortest_path(s, d, 1e9, False, 1.0)]
    expect(len(p) > 2, 'straight through land:', p)
''')
B['along-the-shore']=dict(property='C01',
 edits=[('types/polyline/three_vertex_polyline.cpp','''            (v2v1_orientation == Orientation::COUNTER_CLOCKWISE && v2v3_orientation == Orientation::COLLINEAR &&
                    ThreeVertexPolyline::inclusive_between(v2v3.scalar_multiple_factor(v2coord).value(), -EPSILON_TOLERANCE, 1 + EPSILON_TOLERANCE))''',
 '''            (v2v1_orientation == Orientation::COUNTER_CLOCKWISE && v2v3_orientation == Orientation::COLLINEAR &&
                    ThreeVertexPolyline::inclusive_between(v2v3.scalar_multiple_factor(v2coord).value(), -EPSILON_TOLERANCE, 2 + EPSILON_TOLERANCE))''')],
 needs='a vertex beyond the end of a side that leaves a reentrant corner, exactly in line with it and at most twice as far',
 breaks='the side of a bay no longer ends at its end: from the corner of the bay one sees along it into the land beyond',
 py='''
g = generate_visgraph([P((-1.0, -1.0), (0.0, -1.0), (0.0, 0.0), (1.0, 0.0), (1.0, -1.0), (2.0, -1.0), (2.0, 0.0), (3.0, 0.0), (3.0, -1.0),
                         (4.0, -1.0), (4.0, 2.0), (-1.0, 2.0))])
for a, b in [((0.0, 0.0), (2.0, 0.0)), ((0.0, 0.0), (3.0, 0.0)), ((1.0, 0.0), (3.0, 0.0)), ((1.0, 0.0), (2.0, 0.0))]:
    expect(not g.has_edge(C(*a), C(*b)), a, 'and', b, 'are joined through land')
''')

B['count-from-the-size']=dict(property='C24',
 edits=[('serialization/graph_serializer.cpp','    const auto num_meridian_spanning_edges = deserialize_8_bytes_from_mmap(mmap, adjacency_matrix_byte_offsets.back());','    const auto num_meridian_spanning_edges = (mmap.size() - adjacency_matrix_byte_offsets.back()) / sizeof(uint64_t) - 1;')],
 needs='a file with further bytes after its last field that are not zero, as one written over a larger one by another build',
 breaks='the number of crossing edges is derived from the size of the file, so what follows the last field is taken for edge numbers',
 py='''
import struct
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'graph')
    polys = [P((0.0, 0.0), (1.0, 0.0), (0.0, 1.0)), P((10.0, 0.0), (11.0, 0.0), (10.0, 1.0))]
    g = VisGraph(polys)
    for p in polys[0].vertices:
        for q in polys[1].vertices:
            g.add_edge(p, q, False)
    save_graph_to_file(g, f)
    with open(f, 'ab') as h:
        h.write(b''.join(struct.pack('<Q', k) + bytes(k % 8) for k in range(40)) + b''.join(struct.pack('<Q', k) for k in range(40)))
    expect(load_graph_from_file(f) == g, 'edges became crossing ones')
finally:
    shutil.rmtree(d)
''')
B['removal-of-plain-edges']=dict(property='C10',
 edits=[('datastructures/graph/graph.cpp','''    _neighbors[index] = EdgeState::DISCONNECTED;
}''','''    _neighbors[index] = static_cast<EdgeState>(_neighbors[index] & ~EdgeState::CONNECTED);
}''')],
 needs='removing an edge that leads over the antimeridian',
 breaks='only the bit of a plain edge is cleared, so an edge over the antimeridian cannot be removed',
 cpp='''
int main() {
    const auto a = C(-179000000, 0), b = C(179000000, 1000), c = C(178000000, 5000);
    auto g = Graph({Polygon({a, C(-178000000, 0), C(-178500000, 900000)}), Polygon({b, C(178000000, 800000), c})});
    g.add_edge(a, b, true);
    g.add_edge(b, c, false);
    g.remove_edge(b, c);
    expect(!g.has_edge(b, c) && !g.has_edge(c, b), "the plain edge stays");
    expect(g.has_edge(a, b) && g.has_edge(b, a), "another edge went");
    g.remove_edge(a, b);
    expect(!g.has_edge(a, b) && !g.has_edge(b, a), "the crossing edge stays");
    expect(g.get_neighbors(a).empty() && g.get_neighbors(b).empty(), "it still has neighbors");
    return 0;
}
''')
B['bearing-in-single-precision']=dict(property='C20',
 edits=[('types/coordinate/coordinate.cpp','''    auto arctan = std::atan2(latitude, longitude);''','''    double arctan = std::atan2(static_cast<float>(latitude), static_cast<float>(longitude));''')],
 needs='two points seen in nearly the same direction, as neighbouring corners of a coast many degrees away',
 breaks='bearings less than about a ten-millionth apart compare equal, so such points are sorted in any order',
 cpp='''
int main() {
    std::mt19937 r(5);
    for (int k = 0; k < 200; ++k) {
        const auto o = C(static_cast<int>(r() % 1000000), static_cast<int>(r() % 1000000));
        std::vector<Coordinate> vs;
        for (int i = 0; i < 30; ++i)
            vs.push_back(C(60000000 + o.get_longitude_microdegrees(), 20000000 + o.get_latitude_microdegrees() + i));
        const auto want = vs;
        std::shuffle(vs.begin(), vs.end(), r);
        AngleSorter::sort_counter_clockwise_around_observer(o, vs);
        expect(vs == want, "not in the order of their bearings");
    }
    return 0;
}
''')
B['nearly-straight-is-straight']=dict(property='C13',
 edits=[('types/coordinate/coordinate.cpp','''    return this->vector_orientation(other) == Orientation::COLLINEAR;''',
 '''    return std::abs(cross_product_magnitude(other)) < 1e-9;''')],
 needs='a polygon with a corner that is only some microdegrees off the line of its neighbours',
 breaks='flat corners are dropped as if they lay on the side, so the land loses a part of itself',
 py='''
# thin land: ten microdegrees high and hundreds of them long
for ring in ([(0.0, 0.0), (0.0003, 0.0), (0.00015, 0.000002)], [(0.0, 0.0), (0.000015, -0.000002), (0.00003, 0.0), (0.00003, 0.5), (0.0, 0.5)],
             [(10.0, 0.0), (10.000005, 0.000001), (10.00001, 0.0), (10.0, 3.0)]):
    expect(sorted(T(v) for v in P(*ring).vertices) == sorted(ring), 'lost a corner:', ring, [T(v) for v in P(*ring).vertices])
''')
B['copies-for-the-near-half']=dict(property='C01',
 edits=[('coordinate_periodicity/coordinate_periodicity.cpp','''        for (const auto &polygon_vertices : periodic_polygon_coordinates) {
            periodic_polygons.emplace_back(polygon_vertices);
        }''','''        const auto &vertices = polygon.get_vertices();
        const auto has_western = std::any_of(vertices.begin(), vertices.end(), [](const Coordinate &vertex) {
            return vertex.get_longitude_microdegrees() <= 0;
        });
        const auto has_eastern = std::any_of(vertices.begin(), vertices.end(), [](const Coordinate &vertex) {
            return vertex.get_longitude_microdegrees() >= 0;
        });
        for (size_t i = 0; i < NUM_PERIODIC_VERTICES; ++i) {
            // A copy is only ever reached from the other half of the earth
            if (i == 0 || (i == 1 && has_western) || (i == 2 && has_eastern)) {
                periodic_polygons.emplace_back(periodic_polygon_coordinates[i]);
            }
        }'''),
 ('coordinate_periodicity/coordinate_periodicity.cpp','''#include <cmath>
''','''#include <algorithm>
#include <cmath>
''')],
 needs='a pair on the same half of the earth whose way around the far side is blocked only by land on that same half',
 breaks='land has a copy only a turn beyond the other half, so ways of more than half a turn around the earth lead through it',
 py='''
# between a and b there is land, and so there is on the way around: it lies west of a, on the same half of the earth
a, b = P((100.0, 0.0), (101.0, 0.0), (100.5, 1.0)), P((20.0, 0.0), (21.0, 0.0), (20.5, 1.0))
walls = [P((x, -80.0), (x + 1.0, -80.0), (x + 1.0, 80.0), (x, 80.0)) for x in (60.0, 120.0)]
g = generate_visgraph([a, b] + walls)
for p in a.vertices:
    for q in b.vertices:
        expect(not g.has_edge(p, q), T(p), T(q), 'are joined through land')
''')
B['quotient-is-cut']=dict(property='C25',
 edits=[('types/coordinate/coordinate.cpp','''Coordinate Coordinate::operator/(double scalar) const { return (*this) * (1 / scalar); }''',
 '''Coordinate Coordinate::operator/(double scalar) const {
    return {static_cast<int32_t>(_longitude_microdegrees / scalar), static_cast<int32_t>(_latitude_microdegrees / scalar)};
}''')],
 needs='dividing a coordinate by a number that leaves a fraction of a microdegree of a half or more',
 breaks='quotients are cut off instead of rounded, unlike products',
 py='''
for lon, lat, by in [(0.000005, 0.000007, 2), (1.000002, -0.000005, 3), (-0.000011, 0.000001, 4), (100.0, 50.0, 3), (0.00001, 0.000008, 1.6)]:
    q, m = C(lon, lat) / by, C(lon, lat) * (1 / by)
    for got, x in ((T(q)[0], lon), (T(q)[1], lat)):
        exact = round(x * 1e6) / by
        expect(abs(got * 1e6 - exact) <= 0.5001, got, 'for', x, '/', by)
    expect(T(q) == T(m), 'other than the product', T(q), T(m))
''')
B['view-remembered']=dict(property='C19',
 edits=[('visgraph/vistree_generator.cpp','''    return get_visible_vertices_from_candidate_segments_and_vertices(observer, VistreeGenerator::all_vertices(),
                                                                     VistreeGenerator::all_line_segments(), half_scan);''',
 '''    {
        const std::lock_guard<std::mutex> lock(*_last_view_lock);
        if (_last_view.has_value() && _last_view->first == observer) {
            return _last_view->second;
        }
    }

    const auto visible_vertices = get_visible_vertices_from_candidate_segments_and_vertices(
        observer, VistreeGenerator::all_vertices(), VistreeGenerator::all_line_segments(), half_scan);
    const std::lock_guard<std::mutex> lock(*_last_view_lock);
    _last_view = std::make_pair(observer, visible_vertices);
    return visible_vertices;'''),
 ('visgraph/vistree_generator.hpp','''  private:
''','''  private:
    // Callers tend to ask for the same observer again
    mutable std::optional<std::pair<Coordinate, std::vector<VisibleVertex>>> _last_view;
    std::shared_ptr<std::mutex> _last_view_lock = std::make_shared<std::mutex>();

'''),
 ('visgraph/vistree_generator.hpp','''#include <memory>
''','''#include <memory>
#include <mutex>
#include <optional>
''')],
 needs='asking one tree for the upper half around an observer and then for everything around the same observer',
 breaks='the last view is remembered by observer alone, so half a view is given for a whole one',
 cpp='''
int main() {
    const auto gen = VistreeGenerator({Polygon({C(1000000, 1000000), C(2000000, 1000000), C(1500000, 2000000)}),
                                       Polygon({C(1000000, -1000000), C(2000000, -1000000), C(1500000, -2000000)})});
    const auto o = C(1500000, 0);
    const auto whole = gen.get_visible_vertices(o, false).size();
    expect(whole == 4, "four corners are in sight");
    expect(gen.get_visible_vertices(C(0, 0), true).size() < 5, "another observer");
    expect(gen.get_visible_vertices(o, true).size() == 2, "two of them above");
    expect(gen.get_visible_vertices(o, false).size() == 4, "four corners are still in sight");
    return 0;
}
''')
B['shards-stay-on-the-map']=dict(property='C08',
 edits=[('visgraph/visgraph_generator.cpp','''    auto vistree_gen = VistreeGenerator(make_polygons_periodic(polygons));
''','''    auto vistree_gen = VistreeGenerator(polygons);
''')],
 needs='shards of a map with pairs that see each other over the antimeridian',
 breaks='a range of the vertices is generated without the copies a turn away: the shards lack every edge over the antimeridian',
 py='''
polys = [P((178.0, 0.0), (179.0, 0.0), (178.5, 1.0)), P((-179.0, 0.0), (-178.0, 0.0), (-178.5, 1.0))]
whole = generate_visgraph(polys)
parts = [generate_visgraph_with_shuffled_range(polys, i, i + 1, 7) for i in range(6)]
expect(merge_graphs(parts) == whole, 'the shards make another graph')
''')
B['shuffle-by-range']=dict(property='C08',
 edits=[('visgraph/visgraph_generator.cpp','''    std::mt19937 gen(seed);''','''    std::mt19937 gen(seed + static_cast<unsigned int>(range_start));''')],
 needs='several shards of one map, merged',
 breaks='every range is taken from a shuffle of its own, so shards overlap and miss vertices',
 py='''
polys = [P((x, y), (x + 0.5, y), (x + 0.25, y + 0.5)) for x in (0.0, 1.0, 2.0) for y in (0.0, 1.0, 2.0)]
whole = generate_visgraph(polys)
for n in (1, 3, 9):
    parts = [generate_visgraph_with_shuffled_range(polys, i, i + n, 5) for i in range(0, 27, n)]
    expect(merge_graphs(parts) == whole, 'the shards of', n, 'make another graph')
''')
B['radius-on-the-map']=dict(property='C05',
 edits=[('shortest_path/shortest_path_computer.cpp','''            const auto neighbor_direct_distance_to_source = heuristic_distance_measurement(corrected_source, neighbor);''',
 '''            const auto neighbor_direct_distance_to_source = distance_measurement(corrected_source, neighbor, false);''')],
 needs='a way over the antimeridian with a limited search radius',
 breaks='what lies just beyond the antimeridian counts as nearly a turn away, so no path is found within a radius that holds it',
 py='''
c = VisGraphShortestPathComputer(generate_visgraph([P((-179.8, -1.0), (-179.2, -1.0), (-179.2, 1.0), (-179.8, 1.0))]))
p = [T(x) for x in c.shortest_path(C(179.0, 0.0), C(-178.0, 0.0), 10.0, False, 1.0)]
expect(len(p) == 4, p)
expect(p[0] == (179.0, 0.0) and p[-1] == (-178.0, 0.0), p)
''')
B['negligible-gains-ignored']=dict(property='C04',
 edits=[('shortest_path/shortest_path_computer.cpp','''                 distances_to_source.at(neighbor) <= neighbor_dist_to_source)) {''',
 '''                 distances_to_source.at(neighbor) <= neighbor_dist_to_source + 1e-4)) {''')],
 needs='two ways to the destination whose lengths differ by less than a ten-thousandth of a degree, the longer one found first',
 breaks='a way that is shorter by less than that is not taken, so paths are not the shortest',
 py='''
# the ways south and north of a block meet again at v, a corner of a long wall; the southern one is a little longer but first there
length = lambda q: sum(((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** 0.5 for a, b in zip(q, q[1:]))
c = VisGraphShortestPathComputer(generate_visgraph([P((1.0, -1.0), (2.0, -1.0), (2.0, 1.0), (1.0, 1.0)), P((4.0, -9.0), (5.0, -9.0), (5.0, 1.5), (4.0, 1.5))]))
t = (6.0, -3.0)
ways = lambda s: [length([s] + q + [(4.0, 1.5), (5.0, 1.5), t]) for q in ([(1.0, -1.0), (2.0, -1.0)], [(1.0, 1.0)])]
for longer in (0.00002, 0.00005, 0.00008):
    low, high = -0.9, 0.9
    for _ in range(60):
        y = (low + high) / 2
        south, north = ways((0.5, y))
        low, high = (y, high) if south - north < longer else (low, y)
    s = (0.5, round(low, 6))
    p = [T(x) for x in c.shortest_path(C(*s), C(*t), 1e9, False, 1.0)]
    expect(length(p) <= min(ways(s)) + 5e-6, p, length(p), ways(s))
''')
B['scanline-ends-at-180']=dict(property='C01',
 edits=[('visgraph/vistree_generator.cpp','''        LineSegment(observer, Coordinate(MAX_PERIODIC_LONGITUDE_MICRODEGREES, observer.get_latitude_microdegrees()));''',
 '''        LineSegment(observer, Coordinate(MAX_LONGITUDE_MICRODEGREES, observer.get_latitude_microdegrees()));''')],
 needs='land due east of an observer beyond the antimeridian that hides something else',
 breaks='what lies beyond 180 degrees on the latitude of the observer is not in the way when the scan begins, so one sees through it',
 py='''
a, b = P((178.0, -0.5), (178.0, 0.5), (177.0, 0.0)), P((-176.0, 0.1), (-175.0, 0.0), (-175.0, 1.0))
wall = P((-178.5, -30.0), (-178.0, -30.0), (-178.0, 30.0), (-178.5, 30.0))
far = P((10.0, -80.0), (11.0, -80.0), (11.0, 80.0), (10.0, 80.0))
g = generate_visgraph([a, b, wall, far])
for p in a.vertices:
    for q in b.vertices:
        expect(not g.has_edge(p, q), T(p), T(q), 'are joined through land')
''')
B['writers-share-the-lock']=dict(property='C12',
 edits=[('datastructures/graph/graph.cpp','''    std::unique_lock<std::shared_mutex> a_lock(*a_mutex, std::defer_lock);
    std::unique_lock<std::shared_mutex> b_lock(*b_mutex, std::defer_lock);

    // Lock order prevents deadlock
    if (a_index < b_index) {
        a_lock.lock();
        b_lock.lock();
    } else {
        b_lock.lock();
        a_lock.lock();
    }

    size_t index = a_index + (_num_coords * b_index);
    _neighbors[index] = static_cast<EdgeState>(''','''    std::shared_lock<std::shared_mutex> a_lock(*a_mutex, std::defer_lock);
    std::shared_lock<std::shared_mutex> b_lock(*b_mutex, std::defer_lock);

    // Lock order prevents deadlock
    if (a_index < b_index) {
        a_lock.lock();
        b_lock.lock();
    } else {
        b_lock.lock();
        a_lock.lock();
    }

    size_t index = a_index + (_num_coords * b_index);
    _neighbors[index] = static_cast<EdgeState>(''')],
 needs='two threads that join the same pair at once, one over the antimeridian and one directly',
 breaks='the two read and write the same entry together, so the direct edge of one can be lost',
 cpp='''
#include <atomic>
int main() {
    const auto a = C(0, 0), b = C(1000000, 0), c = C(0, 1000000);
    auto g = Graph({Polygon({a, b, c})});
    std::atomic<int> turn{0}, done{0};
    const int rounds = 400000;
    const auto work = [&](bool crossing) {
        for (int k = 1; k <= rounds; ++k) {
            while (turn.load() < k) {
            }
            g.add_directed_edge(a, b, crossing);
            done.fetch_add(1);
        }
    };
    std::thread t1(work, true), t2(work, false);
    t1.detach();
    t2.detach();
    for (int k = 1; k <= rounds; ++k) {
        g.remove_directed_edge(a, b);
        turn.store(k);
        while (done.load() < 2 * k) {
        }
        expect(!g.is_edge_meridian_crossing(a, b), "the direct edge was lost");
    }
    return 0;
}
''')
B['closed-by-distance']=dict(property='C01',
 edits=[('datastructures/open_edges/open_edges.cpp','''    const auto equal_iter = _edges_sorted_by_distance.equal_range(segment_distance);
    for (auto iter = equal_iter.first; iter != equal_iter.second; ++iter) {
        if (iter->second == segment) {
            _edges_sorted_by_distance.erase(iter);
            return;
        }
    }''','''    _edges_sorted_by_distance.erase(segment_distance);''')],
 needs='two sides that are opened at the same distance from the observer, one of which ends before the other',
 breaks='closing one side closes every other side opened at the same distance, so one sees through those',
 py='''
# the two sides that leave the tip are opened together: one ends at the corner on the right, the other hides the far corner
o = P((-0.5, -0.2), (0.0, 0.0), (-0.5, 0.2))
hill = P((2.0, 0.5), (4.0, 1.9), (3.5, 3.0), (1.0, 3.0))
g = generate_visgraph([o, hill])
expect(g.has_edge(C(0.0, 0.0), C(2.0, 0.5)) and g.has_edge(C(0.0, 0.0), C(4.0, 1.9)), 'what is in front is not seen')
expect(not g.has_edge(C(0.0, 0.0), C(3.5, 3.0)), 'the far corner is seen through land')
''')
B['no-radius-is-any']=dict(property='C18',
 edits=[('capi/src/implementation/path_interpolator.py','''        results = self._shortest_path_computer.shortest_paths(
            coord_pairs, search_distance_from_source_limit, correct_vertices_on_land, a_star_greediness_weighting
        )''','''        results = self._shortest_path_computer.shortest_paths(
            coord_pairs,
            search_distance_from_source_limit or math.inf,
            correct_vertices_on_land,
            a_star_greediness_weighting or 1.0,
        )''')],
 needs='a batch through the interpolator with a search radius of zero',
 breaks='a radius of zero counts as none given, so a batch finds ways that a single query refuses',
 py='''
import warnings
from capi.src.implementation.dtos.coordinate import Coordinate
from capi.src.implementation.path_interpolator import PathInterpolator
warnings.simplefilter('ignore')
d = tempfile.mkdtemp()
try:
    save_graph_to_file(generate_visgraph([P((1.0, -1.0), (2.0, -1.0), (2.0, 1.0), (1.0, 1.0))]), os.path.join(d, 'default'))
    c = PathInterpolator(d)
    s, t = Coordinate(latitude=0.0, longitude=0.5), Coordinate(latitude=0.0, longitude=3.5)
    one = None
    try:
        one = c.interpolate(s, t, 0.0)
    except Exception:
        pass
    expect(one is None, 'found beyond the radius', one)
    expect(c.batch_interpolate([(s, t)], 0.0) == [None], 'the batch finds a way')
    expect(len(c.batch_interpolate([(s, t)], 100.0)[0]) == 4, 'a wide radius')
finally:
    shutil.rmtree(d)
''')
B['vertices-as-read']=dict(property='C18',
 edits=[('capi/src/implementation/graph_generator.py','''        num_vertices = self._get_num_vertices_in_polygons(polygons)
        split_size''','''        num_vertices = self._get_num_vertices_in_polygons(self._shapefile_reader.read(shape_file_path))
        split_size''')],
 needs='a shapefile with a corner that lies on the line of its neighbours, or twice in a row, and a generation of shards',
 breaks='ranges are counted over the vertices as written, of which the generator leaves some out: the last shards fail',
 py='''
import shapefile
from capi.src.implementation.graph_generator import GraphGenerator
from capi.src.implementation.graph_merger import GraphMerger
d = tempfile.mkdtemp()
try:
    with shapefile.Writer(os.path.join(d, 'land'), shapeType=shapefile.POLYGON) as w:
        w.field('n', 'N')
        w.poly([[[0.0, 0.0], [0.0, 1.0], [0.0, 2.0], [2.0, 2.0], [2.0, 0.0], [0.0, 0.0]]])
        w.record(1)
        w.poly([[[5.0, 0.0], [5.0, 1.0], [6.0, 1.0], [5.0, 0.0]]])
        w.record(2)
    f = os.path.join(d, 'land.shp')
    GraphGenerator().generate(f, os.path.join(d, 'whole'))
    for n in (1, 2, 3):
        outs = [os.path.join(d, 'part%d.%d' % (n, i)) for i in range(n)]
        for i in range(n):
            GraphGenerator().generate_for_vertex_range(f, outs[i], i, n, 3)
        GraphMerger().merge(outs, os.path.join(d, 'all%d' % n))
        expect(load_graph_from_file(os.path.join(d, 'all%d' % n, 'default')) == load_graph_from_file(os.path.join(d, 'whole', 'default')), n)
finally:
    shutil.rmtree(d)
''')
B['part-is-equal']=dict(property='C16',
 edits=[('datastructures/graph/graph.cpp','''bool Graph::operator==(const Graph &other) const {
    return to_string_representation() == other.to_string_representation();
}''','''bool Graph::operator==(const Graph &other) const {
    const auto vertices = get_vertices();
    if (vertices.size() != other.get_vertices().size()) {
        return false;
    }
    return std::all_of(vertices.begin(), vertices.end(), [&](const Coordinate &vertex) {
        if (!other.has_vertex(vertex)) {
            return false;
        }
        const auto neighbors = get_neighbors(vertex);
        return std::all_of(neighbors.begin(), neighbors.end(), [&](const Coordinate &neighbor) {
            return other.has_edge(vertex, neighbor) &&
                   other.is_edge_meridian_crossing(vertex, neighbor) == is_edge_meridian_crossing(vertex, neighbor);
        });
    });
}''')],
 needs='comparing a graph with one that has the same edges and more, in this order',
 breaks='a graph is equal to every graph on the same vertices that has at least its edges',
 py='''
polys = [P((0.0, 0.0), (1.0, 0.0), (0.0, 1.0)), P((10.0, 0.0), (11.0, 0.0), (10.0, 1.0))]
g, h = VisGraph(polys), VisGraph(polys)
a, b = polys[0].vertices[0], polys[1].vertices[0]
expect(g == h and h == g, 'without edges')
h.add_edge(a, b, False)
expect(not (h == g), 'more')
expect(not (g == h), 'fewer')
g.add_edge(a, b, False)
expect(g == h and h == g, 'the same edge')
''')
B['closest-to-a-degree-of-accuracy']=dict(property='C15',
 edits=[('datastructures/spatial_segment_index/spatial_segment_index.cpp','''    query.mutable_options()->set_max_results(1);''',
 '''    query.mutable_options()->set_max_results(1);
    query.mutable_options()->set_max_error(S1Angle::Degrees(0.01));''')],
 needs='a point on land nearly in the middle between two shores of a polygon of many sides',
 breaks='the shore a point is moved to may be up to a hundredth of a degree further than the nearest one',
 py='''
import math
ring = [(10.0 + math.cos(t / 100.0 * math.pi), math.sin(t / 100.0 * math.pi)) for t in range(200)]
c = VisGraphShortestPathComputer(generate_visgraph([P(*ring)]))
for k in range(40):
    # a few thousandths of a degree off the middle
    t = 2 * math.pi * k / 40 + 0.01
    s = (10.0 + 0.003 * math.cos(t), 0.003 * math.sin(t))
    q = T(c.shortest_path(C(*s), C(10.0 + 3 * math.cos(t), 3 * math.sin(t)), 1e9, True, 1.0)[0])
    expect(math.dist(s, q) < min(math.dist(s, v) for v in ring) + 1e-4, s, q, math.dist(s, q))
''')
B['destination-beyond-the-radius']=dict(property='C05',
 edits=[('shortest_path/shortest_path_computer.cpp','''            if (neighbor_direct_distance_to_source > maximum_distance_to_search_from_source ||''',
 '''            if ((neighbor_direct_distance_to_source > maximum_distance_to_search_from_source && neighbor != corrected_dest) ||''')],
 needs='a destination outside the search radius which is seen from a vertex inside it',
 breaks='such a destination is found although it lies outside the radius',
 py='''
c = VisGraphShortestPathComputer(generate_visgraph([P((1.0, -1.0), (2.0, -1.0), (2.0, 1.0), (1.0, 1.0))]))
s, t = C(0.5, 0.0), C(5.0, 0.0)
expect(len(c.shortest_path(s, t, 4.6, False, 1.0)) == 4, 'a wide radius')
for r in (4.4, 3.0, 2.0):
    p = None
    try:
        p = [T(x) for x in c.shortest_path(s, t, r, False, 1.0)]
    except Exception:
        pass
    expect(p is None, 'found beyond the radius', r, p)
''')
B['batch-gives-up']=dict(property='C06',
 edits=[('shortest_path/shortest_path_computer.cpp','''    for (size_t i = 0; i < source_dest_pairs.size(); ++i) {
        try {
            paths[i]''','''    for (size_t i = 0; i < source_dest_pairs.size(); ++i) {
        try {
            if (source_dest_pairs[i].first == source_dest_pairs[i].second) {
                // Nothing to search
                paths[i] = BatchInterpolateResult{
                    .path = std::make_optional(std::vector<Coordinate>{source_dest_pairs[i].first, source_dest_pairs[i].second}),
                    .error_msg = std::nullopt
                };
                continue;
            }
            paths[i]''')],
 needs='a batch with a query from a point on land, or beyond the ordinary longitudes, to itself',
 breaks='a batch answers such a query without looking at the land, though alone it fails or is corrected',
 py='''
c = VisGraphShortestPathComputer(generate_visgraph([P((1.0, -1.0), (2.0, -1.0), (2.0, 1.0), (1.0, 1.0))]))
s = C(1.4, 0.2)
alone = None
try:
    alone = [T(x) for x in c.shortest_path(s, s, 1e9, False, 1.0)]
except Exception:
    pass
r = c.shortest_paths([(s, s), (C(0.0, 0.0), C(0.0, 0.0))], 1e9, False, 1.0)
expect(alone is None and r[0].error_msg is not None, 'alone it fails, in a batch it does not')
expect([T(x) for x in r[1].path] == [T(x) for x in c.shortest_path(C(0.0, 0.0), C(0.0, 0.0), 1e9, False, 1.0)], 'at sea')
r = c.shortest_paths([(s, s)], 1e9, True, 1.0)
expect([T(x) for x in r[0].path] == [T(x) for x in c.shortest_path(s, s, 1e9, True, 1.0)], 'corrected alone only')
''')
B['vertex-added-again']=dict(property='C11',
 edits=[('datastructures/modified_graph/modified_graph.cpp','''    if (!has_vertex(vertex)) {
        _neighbors[vertex]''','''    if (!_graph->has_vertex(vertex)) {
        _neighbors[vertex]''')],
 needs='adding a vertex to an overlay that the overlay already has, with edges',
 breaks='the edges that lead from it are forgotten, those that lead to it stay',
 cpp='''
int main() {
    const auto a = C(0, 0), b = C(1000000, 0), c = C(0, 1000000), n = C(3000000, 3000000);
    auto base = std::make_shared<Graph>(std::vector<Polygon>{Polygon({a, b, c})});
    auto over = ModifiedGraph(base);
    over.add_vertex(n);
    over.add_edge(n, a, true);
    over.add_vertex(b);
    over.add_vertex(n);
    expect(over.has_edge(n, a) && over.has_edge(a, n), "an edge is gone");
    expect(over.is_edge_meridian_crossing(n, a), "its flag is gone");
    expect(over.get_neighbors(n).size() == 1, "a neighbor is gone");
    return 0;
}
''')
B['row-read-unlocked']=dict(property='C12',
 edits=[('datastructures/graph/graph.cpp','''    auto &mutex = _accessor_locks[index];
    std::shared_lock<std::shared_mutex> a_lock(*mutex);

    std::vector<Coordinate> neighbors;
    for (size_t i_offset = 0; i_offset < _num_coords; ++i_offset) {''','''    std::vector<Coordinate> neighbors;
    for (size_t i_offset = 0; i_offset < _num_coords; ++i_offset) {
        std::shared_lock<std::shared_mutex> a_lock(*_accessor_locks[index]);''')],
 needs='reading the neighbours of a vertex while another thread adds one edge of it and then removes another',
 breaks='the row is locked entry by entry, so the list can be one that the graph never had',
 cpp='''
#include <atomic>
int main() {
    std::vector<Polygon> ps;
    for (int i = 0; i < 100; ++i)
        ps.push_back(Polygon({C(i * 1000000, 0), C(i * 1000000 + 500000, 0), C(i * 1000000, 500000)}));
    auto g = Graph(ps);
    const auto vs = g.get_vertices();
    const auto a = vs[150], lo = vs[0], hi = vs[299];
    g.add_directed_edge(a, lo, false);
    std::atomic<bool> done{false};
    std::thread t([&] {
        while (!done.load()) {
            g.add_directed_edge(a, hi, false);
            g.remove_directed_edge(a, lo);
            g.add_directed_edge(a, lo, false);
            g.remove_directed_edge(a, hi);
        }
    });
    bool empty = false;
    for (int k = 0; k < 300000 && !empty; ++k)
        empty = g.get_neighbors(a).empty();
    done.store(true);
    t.join();
    expect(!empty, "no neighbor was seen, though there always is one");
    return 0;
}
''')
B['chunks-by-processor']=dict(property='C09',
 edits=[('visgraph/visgraph_generator.cpp','''#pragma omp for schedule(dynamic)
        for (size_t i = 0; i < num_vertices; ++i) { // NOLINT''','''        // Every processor scans a contiguous piece of the vertices
        const auto num_chunks = static_cast<size_t>(omp_get_num_procs());
        const auto chunk = omp_get_thread_num();
        const size_t chunk_end = num_vertices * (chunk + 1) / num_chunks;
        for (size_t i = num_vertices * chunk / num_chunks; i < chunk_end; ++i) {''')],
 needs='generation with fewer threads than there are processors',
 breaks='the pieces of the processors without a thread are left out, so the graph depends on the number of threads',
 py='''
import subprocess
code = """
import sys
sys.path.insert(0, '.')
from capi.src.implementation.visibility_graphs import VisGraphCoord as C, VisGraphPolygon as P, generate_visgraph
g = generate_visgraph([P([C(x, y), C(x + 0.5, y), C(x + 0.25, y + 0.5)]) for x in (0.0, 1.0, 2.0) for y in (0.0, 1.0, 2.0)])
print('GRAPH', ' '.join(str(v) + ':' + str(len(g.get_neighbors(v))) for p in g.polygons for v in p.vertices) if hasattr(g, 'polygons') else repr(g))
"""
out = set()
for n in ('1', '2', '3', '7'):
    r = subprocess.run([sys.executable, '-B', '-c', code], env=dict(os.environ, OMP_NUM_THREADS=n), stdout=subprocess.PIPE, universal_newlines=True)
    out.add(r.stdout[r.stdout.index('GRAPH'):])
expect(len(out) == 1, 'the graph depends on the number of threads')
''')
B['barely-reflex']=dict(property='C01',
 edits=[('types/polyline/three_vertex_polyline.cpp','''    return determinant < 0;''','''    return determinant < -EPSILON_TOLERANCE;''')],
 needs='a reentrant corner of two short sides (less than a thousandth of a degree) or one that is nearly straight',
 breaks='such a corner is taken for one that sticks out, so everything inside the land is seen from it',
 py='''
# a notch of 400 microdegrees in the side of a long piece of land
ring = [(0.0, 0.0), (0.9998, 0.0), (1.0, 0.0002), (1.0002, 0.0), (2.0, 0.0), (2.0, 1.0), (0.0, 1.0)]
g = generate_visgraph([P(*ring)])
for q in ((0.0, 1.0), (2.0, 1.0)):
    expect(not g.has_edge(C(1.0, 0.0002), C(*q)), q, 'is seen through land')
''')
B['count-left-out']=dict(property='C24',
 edits=[('serialization/graph_serializer.cpp','''            sizeof(uint64_t) *
                (num_meridian_spanning_edges + 1)); // For the number of meridian spanning edges, and each edge index;''',
 '''            sizeof(uint64_t) * (num_meridian_spanning_edges == 0 ? 0 : num_meridian_spanning_edges + 1)); // The same for the meridian'''),
 ('serialization/graph_serializer.cpp','''    serialize_to_mmap(mmap, num_meridian_spanning_edges, adjacency_matrix_byte_offsets_back);
''','''    if (num_meridian_spanning_edges != 0) {
        serialize_to_mmap(mmap, num_meridian_spanning_edges, adjacency_matrix_byte_offsets_back);
    }
'''),
 ('serialization/graph_serializer.cpp','''    const auto num_meridian_spanning_edges = deserialize_8_bytes_from_mmap(mmap, adjacency_matrix_byte_offsets.back());''',
 '''    const auto num_meridian_spanning_edges = adjacency_matrix_byte_offsets.back() + sizeof(uint64_t) > mmap.size()
                                                 ? 0
                                                 : deserialize_8_bytes_from_mmap(mmap, adjacency_matrix_byte_offsets.back());''')],
 needs='a file of a graph without edges over the antimeridian, read by another build',
 breaks='the number of crossing edges is left out when it is zero, so other builds read beyond the end of the file',
 py='''
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'graph')
    save_graph_to_file(generate_visgraph([P((0.0, 0.0), (1.0, 0.0), (0.0, 1.0))]), f)
    expect(os.path.getsize(f) == 8 + 8 + 3 * 8 + 3 + 8, 'another layout', os.path.getsize(f))
finally:
    shutil.rmtree(d)
''')
B['view-from-the-query']=dict(property='C17',
 edits=[('shortest_path/shortest_path_computer.cpp','''    auto modified_graph = std::make_shared<ModifiedGraph>(_graph);
''','''    // The vertices of the polygons do not move, so the changes of the last query can be built upon
    static thread_local std::weak_ptr<IGraph> last_graph;
    static thread_local std::shared_ptr<ModifiedGraph> modified_graph;
    static thread_local size_t num_queries = 0;
    if (last_graph.lock() != _graph || ++num_queries % 16 == 0) {
        modified_graph = std::make_shared<ModifiedGraph>(_graph);
        last_graph = _graph;
    }
''')],
 needs='a greedy query from a vertex after one whose end sees more than the vertices do',
 breaks='ends of former queries stay in the overlay, so paths lead over them and depend on what was asked before',
 py='''
# a spike between s and t, which is reached from a corner next to it; o sees the corners of s and t over the spike
s, t, o = (0.0, 0.9), (2.0, -0.1), (1.9, 1.2)
c = VisGraphShortestPathComputer(generate_visgraph([P(s, (-0.5, 1.0), (-0.5, 0.8)), P((2.0, 0.0), (2.5, 0.0), (2.5, 0.2)),
                                                   P((1.0, -9.0), (1.1, -9.0), (1.1, 1.0), (1.0, 1.0))]))
ask = lambda s, t, w: [T(x) for x in c.shortest_path(C(*s), C(*t), 1e9, False, w)]
first = ask(s, t, 10.0)
ask(o, (0.5, 0.0), 1.0)
expect(ask(s, t, 10.0) == first, "another path after another question", first, ask(s, t, 10.0))
''')
B['parallel-in-32-bits']=dict(property='C13',
 edits=[('types/coordinate/coordinate.cpp','''    return this->vector_orientation(other) == Orientation::COLLINEAR;
''','''    const int32_t cross_prod = cross_product_magnitude_microdegrees(other);
    return cross_prod == 0;
''')],
 needs='a corner whose sides span an area that is a multiple of 2^32 square microdegrees',
 breaks='such a corner is dropped as if it lay on a side',
 py='''
v = [(0.0, 0.0), (0.065536, 0.0), (0.065536, 0.131072), (0.0, 0.131072)]
expect(len(P(*v).vertices) == 4, "corners lost", P(*v).vertices)
''')
B['nowhere-to-go']=dict(property='C15',
 edits=[('shortest_path/shortest_path_computer.cpp','''    const auto land_corrections =
        handle_land_collisions(''','''    if (normalized_source == normalized_destination) {
        return {normalized_source, normalized_destination};
    }

    const auto land_corrections =
        handle_land_collisions(''')],
 needs='a query from a point on land to itself',
 breaks='the query succeeds though its ends are on land, and is not corrected',
 py='''
c = VisGraphShortestPathComputer(generate_visgraph([P((0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0))]))
try:
    r = c.shortest_path(C(0.5, 0.5), C(0.5, 0.5), 1e9, False, 1.0)
except RuntimeError:
    r = None
expect(r is None, "no error for a point on land")
''')
B['shore-within-a-degree']=dict(property='C15',
 edits=[('datastructures/spatial_segment_index/spatial_segment_index.cpp','''    query.mutable_options()->set_max_results(1);
    query.mutable_options()->set_include_interiors(false);
''','''    query.mutable_options()->set_max_results(1);
    query.mutable_options()->set_max_distance(S1Angle::Degrees(2));
    query.mutable_options()->set_include_interiors(false);
''')],
 needs='a point that is more than two degrees inside of land',
 breaks='such a point cannot be corrected',
 py='''
c = VisGraphShortestPathComputer(generate_visgraph([P((0.0, 0.0), (9.0, 0.0), (9.0, 9.0), (0.0, 9.0))]))
try:
    r = c.shortest_path(C(4.0, 3.0), C(-1.0, -1.0), 1e9, True, 1.0)
except RuntimeError as e:
    r = None
expect(r is not None, "not corrected")
''')
B['a-hop-is-free']=dict(property='C03',
 edits=[('shortest_path/shortest_path_computer.cpp','''    auto intersections = _index.intersect_with_segments(LineSegment(corrected_source, corrected_dest));
''','''    if ((corrected_source - corrected_dest).magnitude_squared() < 100 * EPSILON_TOLERANCE_SQUARED) {
        return std::vector<Coordinate>{corrected_source, corrected_dest};
    }

    auto intersections = _index.intersect_with_segments(LineSegment(corrected_source, corrected_dest));
''')],
 needs='a source and a destination within ten microdegrees of each other on two sides of a spit',
 breaks='the straight line is returned though it crosses the spit',
 py='''
c = VisGraphShortestPathComputer(generate_visgraph([P((0.0, 0.0), (0.000004, 0.0), (0.000002, 1.0))]))
r = c.shortest_path(C(-0.000002, 0.1), C(0.000006, 0.1), 1e9, False, 1.0)
expect(len(r) > 2, "across the spit", [T(x) for x in r])
''')
B['end-of-the-part-missed']=dict(property='C22',
 edits=[('capi/src/implementation/shapefiles/shapefile_reader.py','''                part_i = 1
                for point_i, point in enumerate(shape.points):
                    if len(shape.parts) > part_i and shape.parts[part_i] == point_i:
                        break
                    current_part.append(Coordinate(longitude=point[0], latitude=point[1]))
''','''                part_end = shape.parts[1] if len(shape.parts) > 1 else None
                for point in shape.points[:part_end]:
                    coordinate = Coordinate(longitude=point[0], latitude=point[1])
                    # Repeated points say nothing
                    if coordinate not in current_part:
                        current_part.append(coordinate)
                if current_part:
                    current_part.append(current_part[0])
''')],
 needs='a ring that comes by one of its vertices twice',
 breaks='the second visit is left out, so the ring has another shape',
 py='''
import sys, tempfile, os, shutil, shapefile
sys.path.insert(0, os.getcwd())
from capi.src.implementation.shapefiles.shapefile_reader import ShapefileReader
d = tempfile.mkdtemp()
try:
    ring = [[0.0, 0.0], [0.0, 2.0], [2.0, 0.0], [4.0, 2.0], [4.0, 0.0], [2.0, 0.0], [2.0, -1.0], [0.0, 0.0]]
    with shapefile.Writer(os.path.join(d, 'x.shp')) as w:
        w.field('name', 'C')
        w.poly([ring])
        w.record('a')
    got = [[p.longitude, p.latitude] for p in ShapefileReader().read(os.path.join(d, 'x.shp'))[0].vertices]
    expect(sorted(got) == sorted(ring[:-1]), "vertices lost", got)
finally:
    shutil.rmtree(d)
''')
B['removal-looks-one-way']=dict(property='C10',
 edits=[('datastructures/graph/graph.cpp','''    remove_directed_edge(a, b);
    remove_directed_edge(b, a);
''','''    if (!has_edge(a, b)) {
        return;
    }

    remove_directed_edge(a, b);
    remove_directed_edge(b, a);
''')],
 needs='removal of an edge that there is only from its second vertex to its first',
 breaks='such an edge stays',
 cpp='''
int main() {
    auto g = std::make_shared<Graph>(std::vector<Polygon>{Polygon{C(0, 0), C(1000000, 0), C(0, 1000000)}});
    const auto a = C(0, 0), b = C(1000000, 0);
    g->add_directed_edge(b, a, false);
    g->remove_edge(a, b);
    expect(!g->has_edge(b, a), "the edge is still there");
}
''')
B['merged-into-the-first']=dict(property='C25',
 edits=[('datastructures/graph/graph.cpp','''    auto merged_graph = std::make_shared<Graph>(std::vector<Polygon>(polygons.begin(), polygons.end()));

''','''    const auto has_all_polygons = std::find_if(graphs.begin(), graphs.end(), [&](const auto &graph) {
        return graph->get_polygons().size() == polygons.size();
    });
    auto merged_graph = has_all_polygons != graphs.end()
                            ? *has_all_polygons
                            : std::make_shared<Graph>(std::vector<Polygon>(polygons.begin(), polygons.end()));

''')],
 needs='looking at a graph after it was merged with another one of the same polygons',
 breaks='the edges of the others are added to one of the merged graphs, which is the merged one',
 py='''
p = P((0.0, 0.0), (1.0, 0.0), (0.0, 1.0))
g, h = VisGraph([p]), VisGraph([p])
a, b, c = C(0.0, 0.0), C(1.0, 0.0), C(0.0, 1.0)
g.add_edge(a, b, False); h.add_edge(b, c, False)
m = merge_graphs([g, h])
expect(not g.has_edge(b, c), "merging changed a graph")
''')
B['ends-within-tolerance']=dict(property='C23',
 edits=[('types/line_segment/line_segment.cpp','''    return ((_endpoint_1.get_longitude() <= point.get_longitude() &&
             point.get_longitude() <= _endpoint_2.get_longitude()) ||
            (_endpoint_2.get_longitude() <= point.get_longitude() &&
             point.get_longitude() <= _endpoint_1.get_longitude())) &&
           ((_endpoint_1.get_latitude() <= point.get_latitude() &&
             point.get_latitude() <= _endpoint_2.get_latitude()) ||
            (_endpoint_2.get_latitude() <= point.get_latitude() && point.get_latitude() <= _endpoint_1.get_latitude()));
''','''    const auto between = [](double end_1, double value, double end_2) {
        return std::min(end_1, end_2) - EPSILON_TOLERANCE <= value && value <= std::max(end_1, end_2) + EPSILON_TOLERANCE;
    };
    return between(_endpoint_1.get_longitude(), point.get_longitude(), _endpoint_2.get_longitude()) &&
           between(_endpoint_1.get_latitude(), point.get_latitude(), _endpoint_2.get_latitude());
''')],
 needs='a point on the line of a segment, one microdegree beyond its end',
 breaks='such a point counts as on the segment',
 cpp='''
int main() {
    expect(LineSegment(C(5, 5), C(15, 5)).on_segment(C(15, 5)), "the end is not on it");
    expect(!LineSegment(C(5, 5), C(15, 5)).on_segment(C(16, 5)), "a point beyond the end is on it");
}
''')
B['one-edge-per-distance']=dict(property='C21',
 edits=[('datastructures/spatial_segment_index/spatial_segment_index.cpp','''    std::transform(edges.begin(), edges.end(), std::back_inserter(result), s2_to_capi_line_segment);
''','''    // A segment through a corner meets both of its edges, at the same distance
    const auto last = std::unique(edges.begin(), edges.end(), [&p1](const auto &e1, const auto &e2) {
        return S2::GetDistance(p1, e1.v0(), e1.v1()) == S2::GetDistance(p1, e2.v0(), e2.v1());
    });
    std::transform(edges.begin(), last, std::back_inserter(result), s2_to_capi_line_segment);
''')],
 needs='a segment that meets two edges at the same distance of its first end',
 breaks='one of the two edges is not reported',
 cpp='''
int main() {
    const auto index = SpatialSegmentIndex({Polygon{C(1000000, 0), C(2000000, -1000000), C(2000000, 1000000)}});
    expect(index.intersect_with_segments(LineSegment(C(0, 0), C(3000000, 0))).size() == 3, "an edge is missing");
}
''')
B['flag-read-backwards']=dict(property='C16',
 edits=[('datastructures/graph/graph.cpp','''                                is_edge_meridian_crossing(vertex, neighbor));
''','''                                is_edge_meridian_crossing(neighbor, vertex));
''')],
 needs='graphs that differ in the flag of an edge that leads one way only',
 breaks='such graphs are equal',
 cpp='''
int main() {
    const auto p = std::vector<Polygon>{Polygon{C(0, 0), C(1000000, 0), C(0, 1000000)}};
    Graph g(p), h(p);
    g.add_directed_edge(C(0, 0), C(1000000, 0), true);
    h.add_directed_edge(C(0, 0), C(1000000, 0), false);
    expect(g != h, "graphs with other flags are equal");
}
''')
B['interpolator-remembered']=dict(property='C18',
 edits=[('capi/src/implementation/path_interpolator.py','''class PathInterpolator(IPathInterpolator):
    def __init__(''','''class PathInterpolator(IPathInterpolator):
    _computers: typing.Dict[str, VisGraphShortestPathComputer] = {}

    def __init__('''),('capi/src/implementation/path_interpolator.py','''        graph = load_graph_from_file(graph_paths.default_graph_path)

        self._shortest_path_computer = VisGraphShortestPathComputer(graph)
''','''        path = str(graph_paths.default_graph_path)
        if path not in self._computers:  # Loading a large graph takes long
            self._computers[path] = VisGraphShortestPathComputer(load_graph_from_file(path))

        self._shortest_path_computer = self._computers[path]
''')],
 needs='a second interpolator for a folder that was removed and made again meanwhile',
 breaks='it answers by the graph that was there before',
 py='''
import shapefile
from capi.src.implementation.graph_generator import GraphGenerator
from capi.src.implementation.path_interpolator import PathInterpolator
from capi.src.implementation.dtos.coordinate import Coordinate
d = tempfile.mkdtemp()
try:
    got = []
    for k in (0, 1):
        f = os.path.join(d, 'x%d.shp' % k)
        with shapefile.Writer(f) as w:
            w.field('name', 'C')
            w.poly([[[10.0 * k, -1.0], [10.0 * k, 1.0], [10.0 * k + 1, 0.0], [10.0 * k, -1.0]]])
            w.record('a')
        out = os.path.join(d, 'graph')
        shutil.rmtree(out, ignore_errors=True)
        GraphGenerator().generate(f, out)
        path = PathInterpolator(out).interpolate(Coordinate(latitude=0.0, longitude=-1.0), Coordinate(latitude=0.0, longitude=2.0))
        got.append(len(path))
    expect(got == [3, 2], "the way of the graph before", got)
finally:
    shutil.rmtree(d)
''')
B['shuffle-remembered']=dict(property='C09',
 edits=[('visgraph/visgraph_generator.cpp','''    std::mt19937 gen(seed);
    std::shuffle(polygon_vertices.begin(), polygon_vertices.end(), gen);
''','''    // The shards of one world are mostly made one after the other
    static std::vector<Coordinate> last_shuffled;
    static std::unordered_set<Coordinate> last_vertices;
    static unsigned int last_seed = 0;
    const auto vertices = std::unordered_set<Coordinate>(polygon_vertices.begin(), polygon_vertices.end());
    if (last_vertices != vertices || last_seed != seed) {
        std::mt19937 gen(seed);
        std::shuffle(polygon_vertices.begin(), polygon_vertices.end(), gen);
        last_shuffled = polygon_vertices;
        last_vertices = vertices;
        last_seed = seed;
    } else {
        polygon_vertices = last_shuffled;
    }
''')],
 needs='a shard of polygons in one order after a shard of the same ones in another order, in one process',
 breaks='a shard depends on what was generated before, so shards made in different processes do not make a whole',
 cpp='''
int main() {
    std::vector<Polygon> p, q;
    for (int i = 0; i < 12; ++i) p.push_back(Polygon{C(3000000 * i, 0), C(3000000 * i + 1000000, 100000 * i), C(3000000 * i, 2000000)});
    q.assign(p.rbegin(), p.rend());
    auto a = VisgraphGenerator::generate_with_shuffled_range(p, 0, 9, 7);
    VisgraphGenerator::generate_with_shuffled_range(q, 0, 9, 8);
    VisgraphGenerator::generate_with_shuffled_range(q, 0, 9, 7);
    auto b = VisgraphGenerator::generate_with_shuffled_range(p, 0, 9, 7);
    expect(*a == *b, "the shard depends on what was generated before");
}
''')
B['copy-by-hemisphere']=dict(property='C04',
 edits=[('shortest_path/shortest_path_computer.cpp','''        const auto periodic_coordinates = periodic_coordinates_from_coordinate(a);
        return std::min((periodic_coordinates[1] - b).magnitude(), (periodic_coordinates[2] - b).magnitude());
''','''        // The copy of a western place lies in the east, that of an eastern one in the west
        const auto periodic_coordinates = periodic_coordinates_from_coordinate(a);
        return (periodic_coordinates[a.get_longitude_microdegrees() < 0 ? 1 : 2] - b).magnitude();
''')],
 needs='a line around the antimeridian between two points of one hemisphere',
 breaks='the line counts as longer by up to a turn, so another way that is longer is taken',
 py='''
# a wall between s and t, which has to be gone around far in the north or south, or the other way around the earth
wall = P((90.0, -85.0), (91.0, -85.0), (91.0, 85.0), (90.0, 85.0))
mark = P((176.0, -0.5), (177.0, -0.5), (176.5, 0.0))
c = VisGraphShortestPathComputer(generate_visgraph([P((6.0, -0.5), (7.0, -0.5), (6.5, 0.5)), wall]))
r = [T(x) for x in c.shortest_path(C(174.0, 0.0), C(4.0, 0.0), 1e9, False, 1.0)]
def length(p):
    n = 0.0
    for a, b in zip(p, p[1:]):
        x = abs(a[0] - b[0])
        n += (min(x, 360.000001 - x) ** 2 + (a[1] - b[1]) ** 2) ** .5
    return n
print(r)
expect(length(r) < 191, "a longer way", r, length(r))
''')
