// Conformance driver: executes commands of the specification's action alphabet on the real
// CAPI classes and prints one JSON event per command.  Commands come one per line on stdin;
// coordinates are integers (microdegrees).  It judges nothing: the TLA+ specifications do.
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <omp.h>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

#include "coordinate_periodicity/coordinate_periodicity.hpp"
#include "datastructures/graph/graph.hpp"
#include "datastructures/modified_graph/modified_graph.hpp"
#include "datastructures/spatial_segment_index/spatial_segment_index.hpp"
#include "geom/angle_sorter/angle_sorter.hpp"
#include "serialization/graph_serializer.hpp"
#include "shortest_path/shortest_path_computer.hpp"
#include "types/coordinate/coordinate.hpp"
#include "types/polygon/polygon.hpp"
#include "visgraph/visgraph_generator.hpp"
#include "visgraph/vistree_generator.hpp"

namespace {
std::map<std::string, std::vector<Polygon>> polys;
std::map<std::string, std::shared_ptr<IGraph>> graphs;
std::map<std::string, std::shared_ptr<ShortestPathComputer>> comps;
// Made once for each set of polygons and asked again and again
std::map<std::pair<std::string, int>, std::shared_ptr<VistreeGenerator>> trees;
std::map<std::string, std::shared_ptr<SpatialSegmentIndex>> indexes;
const SpatialSegmentIndex &index_of(const std::string &id) {
    auto &ix = indexes[id];
    if (!ix)
        ix = std::make_shared<SpatialSegmentIndex>(polys.at(id));
    return *ix;
}

Coordinate rd(std::istream &in) {
    long long x, y;
    if (!(in >> x >> y))
        throw std::logic_error("driver: bad coordinate");
    return Coordinate(static_cast<int32_t>(x), static_cast<int32_t>(y));
}
double rd_double(std::istream &in) {
    std::string t;
    in >> t;
    return t == "inf" ? INFINITY : std::stod(t);
}
std::string js(const Coordinate &c) {
    return "[" + std::to_string(c.get_longitude_microdegrees()) + "," + std::to_string(c.get_latitude_microdegrees()) +
           "]";
}
std::string js(const std::vector<Coordinate> &cs) {
    std::string s = "[";
    for (size_t i = 0; i < cs.size(); ++i)
        s += (i ? "," : "") + js(cs[i]);
    return s + "]";
}
std::string js(const LineSegment &l) { return "[" + js(l.get_endpoint_1()) + "," + js(l.get_endpoint_2()) + "]"; }
std::string esc(const std::string &t) {
    std::string s;
    for (unsigned char c : t) {
        if (c == '"' || c == '\\')
            s += '\\', s += c;
        else if (c < 32)
            s += ' ';
        else
            s += c;
    }
    return s;
}
std::shared_ptr<Graph> plain(const std::string &id) {
    auto g = std::dynamic_pointer_cast<Graph>(graphs.at(id));
    if (!g)
        throw std::logic_error("driver: not a plain graph");
    return g;
}
std::string js_polys(const std::vector<Polygon> &ps) {
    std::string s = "[";
    for (size_t i = 0; i < ps.size(); ++i)
        s += (i ? "," : "") + js(ps[i].get_vertices());
    return s + "]";
}
// Distinct vertices first, then for each ordered pair (i, j) of them a digit:
// 0 = no edge, 1 = direct edge, 2 = edge flagged as meridian crossing (and 3 = flagged but absent).
std::string js_graph(const IGraph &g) {
    auto vs = g.get_vertices();
    std::vector<Coordinate> d;
    for (const auto &v : vs)
        if (std::find(d.begin(), d.end(), v) == d.end())
            d.push_back(v);
    std::string m = "[";
    std::string nb = "[";
    for (size_t i = 0; i < d.size(); ++i) {
        m += i ? ",[" : "[";
        for (size_t j = 0; j < d.size(); ++j) {
            const bool e = g.has_edge(d[i], d[j]);
            const bool x = g.is_edge_meridian_crossing(d[i], d[j]);
            m += (j ? "," : "") + std::to_string(e ? (x ? 2 : 1) : (x ? 3 : 0));
        }
        m += "]";
        nb += (i ? "," : "") + js(g.get_neighbors(d[i]));
    }
    return "\"all\":" + js(vs) + ",\"verts\":" + js(d) + ",\"m\":" + m + "],\"nb\":" + nb + "],\"polys\":" +
           js_polys(g.get_polygons());
}
std::string js_visible(const std::vector<VisibleVertex> &vv) {
    std::string s = "[";
    for (size_t i = 0; i < vv.size(); ++i)
        s += (i ? "," : "") + std::string("[") + std::to_string(vv[i].coord.get_longitude_microdegrees()) + "," +
             std::to_string(vv[i].coord.get_latitude_microdegrees()) + "," +
             (vv[i].is_visible_across_meridian ? "1" : "0") + "]";
    return s + "]";
}
std::vector<Coordinate> rd_coords(std::istream &in) {
    size_t n;
    in >> n;
    std::vector<Coordinate> cs;
    for (size_t i = 0; i < n; ++i)
        cs.push_back(rd(in));
    return cs;
}
std::string path_json(const std::optional<std::vector<Coordinate>> &p, const std::optional<std::string> &err) {
    return std::string("\"ok\":") + (p ? "true" : "false") + ",\"path\":" + (p ? js(*p) : "[]") + ",\"err\":\"" +
           (err ? esc(*err) : "") + "\"";
}

std::string run(const std::string &op, std::istream &in) {
    std::string a, b;
    if (op == "polys") { // id npolys {n x y ...}
        size_t n;
        in >> a >> n;
        std::vector<Polygon> ps;
        for (size_t i = 0; i < n; ++i)
            ps.push_back(Polygon(rd_coords(in)));
        polys[a] = ps;
        for (int kind = 0; kind < 8; ++kind)
            trees.erase({a, kind});
        indexes.erase(a);
        return "\"polys\":" + js_polys(ps);
    }
    if (op == "graph") {
        in >> a >> b;
        graphs[a] = std::make_shared<Graph>(polys.at(b));
        return "";
    }
    if (op == "gen") {
        in >> a >> b;
        graphs[a] = VisgraphGenerator::generate(polys.at(b));
        return "";
    }
    if (op == "genrange") {
        size_t s, e;
        unsigned seed;
        in >> a >> b >> s >> e >> seed;
        graphs[a] = VisgraphGenerator::generate_with_shuffled_range(polys.at(b), s, e, seed);
        return "";
    }
    if (op == "overlay") {
        in >> a >> b;
        graphs[a] = std::make_shared<ModifiedGraph>(graphs.at(b));
        return "";
    }
    if (op == "addedge" || op == "adddir") {
        in >> a;
        const auto p = rd(in), q = rd(in);
        int x;
        in >> x;
        if (op == "addedge")
            graphs.at(a)->add_edge(p, q, x != 0);
        else
            graphs.at(a)->add_directed_edge(p, q, x != 0);
        return "";
    }
    if (op == "remedge" || op == "remdir") {
        in >> a;
        const auto p = rd(in), q = rd(in);
        if (op == "remedge")
            graphs.at(a)->remove_edge(p, q);
        else
            graphs.at(a)->remove_directed_edge(p, q);
        return "";
    }
    if (op == "addvert") {
        in >> a;
        graphs.at(a)->add_vertex(rd(in));
        return "";
    }
    if (op == "edge") { // has_edge / is_edge_meridian_crossing
        in >> a;
        const auto p = rd(in), q = rd(in);
        const bool e = graphs.at(a)->has_edge(p, q);
        const bool x = graphs.at(a)->is_edge_meridian_crossing(p, q);
        return "\"v\":" + std::to_string(e ? (x ? 2 : 1) : (x ? 3 : 0));
    }
    if (op == "nbrs") {
        in >> a;
        return "\"nb\":" + js(graphs.at(a)->get_neighbors(rd(in)));
    }
    if (op == "hasvert") {
        in >> a;
        return std::string("\"v\":") + (graphs.at(a)->has_vertex(rd(in)) ? "1" : "0");
    }
    if (op == "state") {
        in >> a;
        return js_graph(*graphs.at(a));
    }
    if (op == "dump") { // sparse form for graphs of any size: edges as [i, j, label] by vertex number
        in >> a;
        const auto &g = *graphs.at(a);
        const auto vs = g.get_vertices();
        std::vector<Coordinate> d;
        std::map<std::pair<int32_t, int32_t>, size_t> num;
        for (const auto &v : vs)
            if (num.emplace(std::make_pair(v.get_longitude_microdegrees(), v.get_latitude_microdegrees()), d.size())
                    .second)
                d.push_back(v);
        std::string s = "\"all\":" + std::to_string(vs.size()) + ",\"verts\":" + js(d) + ",\"edges\":[";
        std::string nb;
        bool first = true;
        for (size_t i = 0; i < d.size(); ++i) {
            for (size_t j = 0; j < d.size(); ++j) {
                const bool e = g.has_edge(d[i], d[j]);
                const bool x = g.is_edge_meridian_crossing(d[i], d[j]);
                if (e || x) {
                    s += std::string(first ? "" : ",") + "[" + std::to_string(i) + "," + std::to_string(j) + "," +
                         (e ? (x ? "2" : "1") : "3") + "]";
                    first = false;
                }
            }
            nb += (i ? "," : "") + js(g.get_neighbors(d[i]));
        }
        return s + "],\"nb\":[" + nb + "],\"polys\":" + js_polys(g.get_polygons());
    }
    if (op == "text") {
        in >> a;
        return "\"t\":\"" + esc(plain(a)->to_string_representation()) + "\"";
    }
    if (op == "eq") {
        in >> a >> b;
        const bool e = *plain(a) == *plain(b), n = *plain(a) != *plain(b);
        return std::string("\"eq\":") + (e ? "1" : "0") + ",\"ne\":" + (n ? "1" : "0");
    }
    if (op == "merge") {
        size_t n;
        in >> a >> n;
        std::vector<std::shared_ptr<Graph>> gs;
        for (size_t i = 0; i < n; ++i) {
            in >> b;
            gs.push_back(plain(b));
        }
        graphs[a] = merge_graphs(gs);
        return "";
    }
    if (op == "save") {
        in >> a >> b;
        GraphSerializer::serialize_to_file(plain(a), b);
        return "";
    }
    if (op == "load") {
        in >> a >> b;
        graphs[a] = GraphSerializer::deserialize_from_file(b);
        return "";
    }
    if (op == "bytes") {
        in >> a;
        std::ifstream f(a, std::ios::binary);
        std::string s = "\"bytes\":[";
        bool first = true;
        for (int c; (c = f.get()) != EOF; first = false)
            s += (first ? "" : ",") + std::to_string(c);
        return s + "]";
    }
    if (op == "comp") {
        in >> a >> b;
        comps[a] = std::make_shared<ShortestPathComputer>(graphs.at(b));
        return "";
    }
    if (op == "path") { // comp ax ay bx by max correct weight
        in >> a;
        const auto p = rd(in), q = rd(in);
        const double mx = rd_double(in);
        int corr;
        in >> corr;
        const double w = rd_double(in);
        try {
            return path_json(comps.at(a)->shortest_path(p, q, mx, corr != 0, w), std::nullopt);
        } catch (const std::exception &e) {
            return path_json(std::nullopt, std::string(e.what()));
        }
    }
    if (op == "batch") { // comp max correct weight n {ax ay bx by}
        in >> a;
        const double mx = rd_double(in);
        int corr;
        in >> corr;
        const double w = rd_double(in);
        size_t n;
        in >> n;
        std::vector<std::pair<Coordinate, Coordinate>> ps;
        for (size_t i = 0; i < n; ++i) {
            const auto p = rd(in);
            const auto q = rd(in);
            ps.emplace_back(p, q);
        }
        const auto rs = comps.at(a)->shortest_paths(ps, mx, corr != 0, w);
        std::string s = "\"results\":[";
        for (size_t i = 0; i < rs.size(); ++i)
            s += (i ? ",{" : "{") + path_json(rs[i].path, rs[i].error_msg) +
                 ",\"haserr\":" + (rs[i].error_msg ? "1" : "0") + "}";
        return s + "]";
    }
    if (op == "visible") { // polysid kind half x y; kind: 1 with copies, +2 from the segments as candidates, +4 by a tree of segments
        int kind, half;
        in >> a >> kind >> half;
        const auto p = rd(in);
        const auto segments = [&] {
            std::vector<LineSegment> all;
            for (const auto &poly : polys.at(a))
                for (const auto &seg : poly.get_line_segments())
                    all.push_back(seg);
            if (kind & 1)
                return make_segments_periodic(all);
            std::vector<std::shared_ptr<LineSegment>> shared;
            for (const auto &seg : all)
                shared.push_back(std::make_shared<LineSegment>(seg));
            return shared;
        };
        auto &gen = trees[{a, kind}];
        if (!gen)
            gen = (kind & 4) ? std::make_shared<VistreeGenerator>(segments())
                             : std::make_shared<VistreeGenerator>((kind & 1) ? make_polygons_periodic(polys.at(a)) : polys.at(a));
        return "\"vis\":" + js_visible((kind & 2) ? gen->get_visible_vertices_from_candidate_segments(p, segments(), half != 0)
                                                  : gen->get_visible_vertices(p, half != 0));
    }
    if (op == "sort") { // x y n {x y}
        const auto o = rd(in);
        auto cs = rd_coords(in);
        AngleSorter::sort_counter_clockwise_around_observer(o, cs);
        return "\"sorted\":" + js(cs);
    }
    if (op == "normalize") {
        const auto p = rd(in);
        return "\"c\":" + js(coordinate_from_periodic_coordinate(p)) +
               ",\"over\":" + (is_coordinate_over_meridian(p) ? "1" : "0") +
               ",\"per\":" + js(periodic_coordinates_from_coordinate(p));
    }
    if (op == "contained") {
        in >> a;
        const auto &ix = index_of(a);
        return std::string("\"v\":") + (ix.is_point_contained(rd(in)) ? "1" : "0");
    }
    if (op == "closest") {
        in >> a;
        const auto &ix = index_of(a);
        return "\"seg\":" + js(ix.closest_segment_to_point(rd(in)));
    }
    if (op == "crosses") {
        in >> a;
        const auto &ix = index_of(a);
        const auto p = rd(in), q = rd(in);
        const auto seg = LineSegment(p, q);
        const auto segs = ix.intersect_with_segments(seg);
        std::string s = "[";
        for (size_t i = 0; i < segs.size(); ++i)
            s += (i ? "," : "") + js(segs[i]);
        return std::string("\"v\":") + (ix.does_segment_intersect_with_segments(seg) ? "1" : "0") + ",\"segs\":" + s +
               "]";
    }
    if (op == "within") {
        in >> a;
        const auto &ix = index_of(a);
        const auto p = rd(in);
        const double r = rd_double(in);
        const auto segs = ix.segments_within_distance_of_point(p, r);
        std::string s = "[";
        for (size_t i = 0; i < segs.size(); ++i)
            s += (i ? "," : "") + js(segs[i]);
        return "\"segs\":" + s + "]";
    }
    if (op == "segpair") { // intersection_with_segment, on_segment, orientation
        const auto p = rd(in), q = rd(in), r = rd(in), t = rd(in);
        const auto s1 = LineSegment(p, q), s2 = LineSegment(r, t);
        const auto x = s1.intersection_with_segment(s2);
        return "\"x\":" + (x ? "[" + js(*x) + "]" : std::string("[]")) +
               ",\"on\":" + (s1.on_segment(r) ? "1" : "0") +
               ",\"o\":" + std::to_string(static_cast<int>(s1.orientation_of_point_to_segment(r))) +
               ",\"eq\":" + (s1 == s2 ? "1" : "0");
    }
    if (op == "threads") {
        int n;
        in >> n;
        omp_set_num_threads(n);
        return "";
    }
    if (op == "reset") {
        comps.clear();
        trees.clear();
        indexes.clear();
        graphs.clear();
        polys.clear();
        return "";
    }
    throw std::logic_error("driver: unknown op " + op);
}
} // namespace

int main() {
    std::ios::sync_with_stdio(false);
    // CAPI writes progress bars and debug values to std::cout; events go to the original stdout.
    const int out_fd = dup(1);
    FILE *out = fdopen(out_fd, "w");
    if (!freopen("/dev/null", "w", stdout))
        return 3;
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string op;
        if (!(in >> op))
            continue;
        std::string ev;
        try {
            const auto body = run(op, in);
            ev = "{\"thrown\":\"\"" + (body.empty() ? "" : "," + body) + "}";
        } catch (const std::logic_error &e) {
            if (std::strncmp(e.what(), "driver:", 7) == 0) {
                fprintf(stderr, "%s in: %s\n", e.what(), line.c_str());
                return 3;
            }
            ev = std::string("{\"thrown\":\"") + (std::strlen(e.what()) ? esc(e.what()) : "exception") + "\"}";
        } catch (const std::exception &e) {
            ev = std::string("{\"thrown\":\"") + (std::strlen(e.what()) ? esc(e.what()) : "exception") + "\"}";
        }
        fprintf(out, "%s\n", ev.c_str());
        fflush(out);
    }
    fclose(out);
    return 0;
}
