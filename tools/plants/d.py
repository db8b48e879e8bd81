exec(open("/verif/tools/plants/c.py").read().split("PLANTS = " + "[")[0])
M = I + "matching/"
NET = '''
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <set>
#include <tuple>
#include <vector>
#include "types/geometry/network/network.hpp"
#include "types/geometry/network/network_import.hpp"
#include "geometry/network/traits/network.hpp"
using namespace map_matching_2;
namespace mg = map_matching_2::geometry;
using import_t = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)));
using network_t = MM2_NETWORK(MM2_GRAPH_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)),
    MM2_INDEX_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_MEMORY_TYPES));
using traits_t = mg::network::network_traits<import_t>;
using point_t = traits_t::point_type;
using xys = std::vector<std::pair<double, double>>;
struct road { std::uint64_t id; std::size_t s, t; xys line; bool both; };
inline network_t make(const xys &nodes, const std::vector<road> &roads) {
    import_t n;
    std::vector<std::size_t> idx;
    for (std::size_t i = 0; i < nodes.size(); ++i) {
        idx.push_back(n.graph_helper().add_vertex_with_index_mapping(
            traits_t::vertex_data_type{100 + i, point_t{nodes[i].first, nodes[i].second}}));
    }
    for (const auto &r : roads) {
        for (int back = 0; back < (r.both ? 2 : 1); ++back) {
            xys pts{nodes[r.s]};
            pts.insert(pts.end(), r.line.begin(), r.line.end());
            pts.push_back(nodes[r.t]);
            if (back) {
                std::reverse(pts.begin(), pts.end());
            }
            traits_t::line_type line;
            for (const auto &p : pts) {
                line.emplace_back(point_t{p.first, p.second});
            }
            n.graph_helper().add_edge(idx[back ? r.t : r.s], idx[back ? r.s : r.t],
                traits_t::edge_data_type{r.id, traits_t::rich_line_type{line}});
        }
    }
    network_t out;
    out.graph_helper().from_adjacency_list(n.graph_helper(), n.tag_helper());
    out.build_spatial_indices();
    return out;
}
'''
PLANTS = [
 dict(id="standstill-not-indexed", property="P17",
      needs="a road all of whose points coincide, such as one between two nodes at the same position",
      breaks="the road is found by no search for segments",
      edits=[(G + "network/network.hpp",
              "                        index_helper().index_build_helper().add_segment(\n                                std::pair{edge.rich_line.segment(i), std::pair{it, i}});",
              "                        // segments without extent are never the nearest ones\n                        if (geometry::equals_points(edge.rich_line.at(i), edge.rich_line.at(i + 1))) {\n                            continue;\n                        }\n                        index_helper().index_build_helper().add_segment(\n                                std::pair{edge.rich_line.segment(i), std::pair{it, i}});")],
      sources=CORE, shims=["csv.hpp"],
      demo=NET + '''
int main() {
    const auto n = make({{0, 0}, {10, 0}, {10, 0}}, {{1, 0, 1, {}, true}, {2, 1, 2, {}, false}});
    const boost::geometry::model::box<point_t> box{point_t{9, -1}, point_t{11, 1}};
    std::set<std::uint64_t> ids;
    for (const auto &e : n.query_segments_unique(boost::geometry::index::intersects(box))) {
        ids.insert(n.edge(e).id);
    }
    std::printf("%zu\\n", ids.size());
    return ids == std::set<std::uint64_t>{1, 2} ? 0 : 1;
}
'''),
 dict(id="adopted-edge-once-per-distance", property="P18",
      needs="two candidates of neighbouring points on one edge that lie equally far from the point adopting them",
      breaks="only one of the two positions is adopted, so the point lacks a candidate its neighbour has",
      edits=[(M + "algorithm/candidate_search.hpp",
              "                        if (*it == new_candidate_edge) {",
              "                        if (it->edge_desc == new_candidate_edge.edge_desc) {")],
      sources=CORE, shims=["csv.hpp"],
      demo=NET + '''
#include "types/matching/matcher.hpp"
#include "matching/algorithm/candidate_search.hpp"
int main() {
    const auto n = make({{0, 0}, {10, 0}}, {{1, 0, 1, {}, false}});
    using traits = matching::network_traits<network_t>;
    typename mg::rich_line_traits<traits::track_rich_line_type>::line_type line;
    for (const double x : {2.0, 5.0, 8.0}) {
        line.emplace_back(point_t{x, 1});
    }
    const traits::track_type track{"t", std::move(line)};
    util::time_helper time;
    const auto c = matching::candidate_searcher<network_t>{n, time}.candidate_search(track, matching::settings{});
    std::printf("%zu %zu %zu\\n", c[0].edges.size(), c[1].edges.size(), c[2].edges.size());
    return c[1].edges.size() == 3 ? 0 : 1;
}
'''),
 dict(id="standing-closes-gap", property="P19",
      needs="a matched track with two parts that are not connected where the vehicle stands still right after the gap",
      breaks="the routes before and after the gap are joined over the gap although no road connects them",
      edits=[(M + "algorithm/route.hpp",
              "                if (not route.is_invalid() and route.has_length()) {\n                    skipped = false;\n                    routes.emplace_back(std::move(route));\n                }",
              "                if (not route.is_invalid()) {\n                    skipped = false;\n                    if (route.has_length()) {\n                        routes.emplace_back(std::move(route));\n                    }\n                }")],
      sources=CORE, shims=["csv.hpp"],
      demo=NET + '''
#include "types/matching/matcher.hpp"
#include "matching/algorithm/candidate_search.hpp"
#include "matching/algorithm/route.hpp"
int main() {
    const auto n = make({{0, 0}, {10, 0}, {100, 0}, {110, 0}}, {{1, 0, 1, {}, false}, {2, 2, 3, {}, false}});
    using traits = matching::network_traits<network_t>;
    typename mg::rich_line_traits<traits::track_rich_line_type>::line_type line;
    for (const double x : {2.0, 5.0, 103.0, 103.0, 107.0}) {
        line.emplace_back(point_t{x, 1});
    }
    const traits::track_type track{"t", std::move(line)};
    util::time_helper time;
    matching::settings s;
    s.radius = 20;
    s.radius_lower_limit = 20;
    s.candidate_search = matching::settings::CIRCLE;
    s.candidate_adoption_siblings = s.candidate_adoption_nearby = false;
    const auto c = matching::candidate_searcher<network_t>{n, time}.candidate_search(track, s);
    std::vector<std::pair<std::size_t, std::size_t>> policy;
    for (std::size_t i = 0; i < c.size(); ++i) {
        if (c[i].edges.size() != 1) {
            return 2;
        }
        policy.emplace_back(i, 0);
    }
    const auto r = matching::router<network_t>{n, time}.candidates_route(c, policy);
    std::printf("%zu %f\\n", r.rich_lines().size(), static_cast<double>(r.length()));
    return r.rich_lines().size() == 2 and r.length() < 8 ? 0 : 1;
}
'''),
 dict(id="viterbi-restart", property="P20",
      needs="a point with a candidate that no candidate of the point before can reach, while others can be reached",
      breaks="the sequence starts anew at the unreachable candidate, so the points before it are lost although a complete sequence exists",
      edits=[(I + "learning/algorithms/viterbi.hpp",
              "                        } else if (not initialized) {\n                            // late initialization because of skips",
              "                        } else {\n                            // (re-)initialization because of skips")],
      sources=[], shims=[],
      demo='''
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <vector>
#include "learning/algorithms/viterbi.hpp"
struct env {
    using action_type = std::int64_t;
    const action_type no_action = -1;
    std::vector<std::vector<double>> o;
    std::vector<std::vector<std::vector<double>>> t;
    bool abort() { return false; }
    const auto &observations() const { return o; }
    const auto &transitions() const { return t; }
};
int main() {
    const double never = std::log(0.0);
    env e;
    e.o = {{-2.0}, {-2.0, -1.5}, {-1.0}};
    e.t = {{{0.0}}, {{-1.0}, {never}}, {{-1.0, -0.5}}};
    map_matching_2::learning::viterbi<env> v{e};
    const auto p = v();
    std::printf("%zu\\n", p.size());
    return p.size() == 3 and p[1].second == 0 ? 0 : 1;
}
'''),

 dict(id="failed-task-keeps-slot", property="P21",
      needs="as many failing tasks in one run as the queue has places, and further tasks after them",
      breaks="the coordinator waits forever for a free place, the remaining tracks are never matched",
      edits=[(I + "util/coordinator.hpp",
              '''                        try {
                            execute(std::move(task));
                            _semaphore.release();
                        } catch (...) {
                            _semaphore.release();
                            throw;
                        }
''', '''                        execute(std::move(task));
                        _semaphore.release();
''')],
      sources=[], shims=[], timeout=30,
      demo='''
#include <atomic>
#include <cstdio>
#include <stdexcept>
#include "util/coordinator.hpp"
struct work : map_matching_2::util::coordinator<int> {
    std::atomic<int> runs{0};
    using coordinator::coordinator;
    void execute(int &&i) override {
        ++runs;
        if (i % 4 == 0) {
            throw std::runtime_error{"foreign coordinates"};
        }
    }
};
int main() {
    work w{2};
    w.start();
    for (int i = 0; i < 100; ++i) {
        w.queue(i);
    }
    w.stop();
    w.join();
    std::printf("%d\\n", w.runs.load());
    return w.runs == 100 ? 0 : 1;
}
'''),
 dict(id="cache-shared", property="P21",
      needs="several threads, geographic or spherical coordinates and the caches enabled as by the application",
      breaks="threads read, fill and reset the same distance cache at the same time",
      edits=[(G + "cache.hpp", "extern thread_local std::unique_ptr<distance_cache_type> distance_cache;",
              "extern std::unique_ptr<distance_cache_type> distance_cache;"),
             ("src/library/src/geometry/cache.cpp", "thread_local std::unique_ptr<distance_cache_type> distance_cache{};",
              "std::unique_ptr<distance_cache_type> distance_cache{};")],
      sources=["src/library/src/geometry/cache.cpp"], shims=[], flags="-fsanitize=thread",
      demo='''
#include <cstdio>
#include <thread>
#include <vector>
#include "types/geometry/point.hpp"
#include "geometry/algorithm/distance.hpp"
using namespace map_matching_2::geometry;
int main() {
    enable_cache();
    using point = point_type<cs_spherical_equatorial>;
    std::vector<std::thread> ts;
    int bad[4]{};
    for (int t = 0; t < 4; ++t) {
        ts.emplace_back([t, &bad] {
            for (int i = 0; i < 3000; ++i) {
                const point a{t + i % 50 * 0.01, 1.0}, b{t + i % 70 * 0.01, 2.0};
                const auto first = map_matching_2::geometry::distance(a, b);
                if (map_matching_2::geometry::distance(a, b) != first or not (first > 100000)) {
                    ++bad[t];
                }
                if (i % 100 == 0) {
                    reset_distance_cache();
                }
            }
        });
    }
    for (auto &t : ts) {
        t.join();
    }
    return bad[0] + bad[1] + bad[2] + bad[3] == 0 ? 0 : 1;
}
'''),

 dict(id="reverse-counted-twice", property="P16",
      needs="a match that turns around on a stretch which the reference passes at another time, so that the turned part is found among the missed parts",
      breaks="the turned part is counted as correct and again as added, correct plus added length exceeds the match",
      edits=[(G + "algorithm/compare.hpp",
              '''                        corrects.emplace_back(*reverse_b_it);
                        reverse_b_segments.erase(reverse_b_it);
                        error_misses.erase(error_misses_it);''',
              '''                        corrects.emplace_back(*reverse_b_it);
                        error_misses.erase(error_misses_it);''')],
      sources=["src/library/src/geometry/cache.cpp"], shims=[],
      demo='''
#include <cmath>
#include <cstdio>
#include "types/geometry/point.hpp"
#include "geometry/algorithm/compare.hpp"
#include "geometry/rich_type/rich_line.hpp"
#include "geometry/rich_type/multi_rich_line.hpp"
using namespace map_matching_2::geometry;
using point = point_type<cs_cartesian>;
using line = models<point>::line_type<>;
using rich = rich_line<point>;
static rich make(std::initializer_list<std::pair<int, int>> l) {
    line out;
    for (const auto &[x, y] : l) {
        out.emplace_back(10.0 * x, 10.0 * y);
    }
    return rich{out};
}
int main() {
    line_comparator<multi_rich_line<rich>> c;
    const auto a = make({{0,0},{4,0},{0,0},{1,0},{0,0},{1,0}}), b = make({{2,1},{2,0},{1,0},{0,0},{4,0},{2,0},{4,0},{2,0},{4,0},{2,0},{1,0},{3,0},{1,0},{0,0},{1,0},{0,0},{1,0}});
    const auto r = c.compare(a, b);
    std::printf("%f %f %f of %f %f\\n", r.correct, r.error_added, r.error_missed, a.length(), b.length());
    return std::abs(r.correct + r.error_missed - a.length()) < 1e-3 and std::abs(r.correct + r.error_added - b.length()) < 1e-3 ? 0 : 1;
}
'''),
dict(id="azimuth-cached-both-ways", property="P25",
      needs="enabled caches, geographic or spherical coordinates, and the bearing back between two points that are far apart in east-west direction asked after the bearing forth",
      breaks="the bearing back is the forward bearing turned by 180 degrees, without the convergence of the meridians",
      edits=[(G + "algorithm/azimuth.hpp",
              """                const auto azimuth = boost::geometry::azimuth(a, b);
                azimuth_cache->emplace(key, azimuth);
                return azimuth;
""",
              """                const auto azimuth = boost::geometry::azimuth(a, b);
                azimuth_cache->emplace(key, azimuth);
                if (not boost::geometry::equals(a, b)) {
                    // the opposite direction is often requested next
                    constexpr auto half_turn = std::numbers::pi_v<typename data<Point>::angle_type>;
                    azimuth_cache->emplace(_cache_key(b, a), azimuth > 0 ? azimuth - half_turn : azimuth + half_turn);
                }
                return azimuth;
""")],
      sources=["src/library/src/geometry/cache.cpp"], shims=[],
      demo="""
#include <cmath>
#include <cstdio>
#include "types/geometry/point.hpp"
#include "geometry/algorithm/azimuth.hpp"
using namespace map_matching_2::geometry;
using point = point_type<cs_geographic>;
int main() {
    const point a{11.0, 50.0}, b{13.0, 50.5};
    disable_cache();
    const double back = azimuth_deg(b, a);
    enable_cache();
    const double forth = azimuth_deg(a, b), cached = azimuth_deg(b, a);
    std::printf("%f %f %f\\n", forth, back, cached);
    return std::abs(back - cached) < 1e-9 ? 0 : 1;
}
"""),
dict(id="rows-counted-per-run", property="P22",
      needs="a csv file without times, not grouped, in which the rows of a track are interrupted by rows of another track",
      breaks="the rows of a track after the interruption are mixed among those before it",
      edits=[(I + "io/track/csv_track_importer.hpp",
              """                        } else if (_measurements.contains(id)) {
                            const auto &measurements =
                                    std::any_cast<std::vector<measurement_type_out>>(_measurements[id]);
                            timestamp = measurements.size();
                        }

                        if (_csv_settings.wkt) {""",
              """                        } else if (_id_set and id == _current_id) {
                            // rows without time follow each other
                            timestamp = ++_last_timestamp;
                        }
                        _last_timestamp = timestamp;

                        if (_csv_settings.wkt) {"""),
             (I + "io/track/csv_track_importer.hpp",
              "        bool _id_set{false};\n",
              "        bool _id_set{false};\n        std::uint64_t _last_timestamp{0};\n")],
      sources=["src/library/src/io/importer.cpp", "src/library/src/io/csv_importer.cpp", "src/library/src/geometry/cache.cpp",
               "src/library/src/geometry/srs.cpp", "src/library/src/geometry/algorithm/reproject.cpp"], shims=["csv.hpp"],
      demo="""
#include <cstdio>
#include <fstream>
#include <filesystem>
#include <map>
#include "io/track/csv_track_importer.hpp"
using namespace map_matching_2;
struct collector {
    using multi_track_variant_type = geometry::track::multi_track_variant_type;
    std::map<std::string, std::vector<double>> xs;
    void pass(multi_track_variant_type variant) {
        std::visit([&](const auto &track) {
            for (const auto &part : track.multi_rich_line.rich_lines()) {
                for (const auto &p : part.line()) { xs[track.id].push_back(p.template get<0>()); }
            }
        }, variant);
    }
};
int main() {
    char dir[] = "/tmp/demo.XXXXXX";
    if (not mkdtemp(dir)) { return 1; }
    const std::string file = std::string{dir} + "/t.csv";
    std::ofstream{file} << "id,x,y\\n" "a,0,0\\n" "a,1,0\\n" "a,2,0\\n" "b,0,5\\n" "b,1,5\\n" "a,3,0\\n" "a,4,0\\n" "b,2,5\\n";
    io::csv_settings settings;
    settings.delimiter = ",";
    settings.field_id = {"id"};
    settings.field_x = "x";
    settings.field_y = "y";
    settings.grouped = false;
    const geometry::srs_transform transform{{3857, geometry::SRS::CS_CARTESIAN}, 3857, geometry::SRS::CS_CARTESIAN};
    const auto reprojector = geometry::create_point_reprojector(transform);
    collector c;
    io::track::csv_track_importer<collector> importer{std::vector<std::string>{file}, std::vector<std::string>{}, settings, c, transform, reprojector};
    importer.read();
    std::filesystem::remove_all(dir);
    for (const auto &x : c.xs["a"]) { std::printf("%g ", x); }
    return c.xs["a"] == std::vector<double>{0, 1, 2, 3, 4} and c.xs["b"] == std::vector<double>{0, 1, 2} ? 0 : 1;
}
"""),
dict(id="list-tries-one-edge-per-step", property="P22",
      needs="a list of edges in which an id has two edges that both continue the previous edge, of which only the second leads on, such as a loop road",
      breaks="the line of the list breaks into parts although its edges are connected",
      edits=[(I + "io/track/edges_list_importer.hpp",
              """                                    if (_is_connected(new_path)) {
                                        queue.push({step + 1, new_path});
                                    }""",
              """                                    if (_is_connected(new_path)) {
                                        queue.push({step + 1, new_path});
                                        if (not current_path.empty()) {
                                            // the way leads on with this one
                                            break;
                                        }
                                    }""")],
      sources=CORE + ["src/library/src/io/importer.cpp", "src/library/src/geometry/srs.cpp", "src/library/src/geometry/algorithm/reproject.cpp"], shims=["csv.hpp"],
      demo=NET + """
#include <fstream>
#include <filesystem>
#include "io/track/edges_list_importer.hpp"
struct collector {
    using multi_track_variant_type = mg::track::multi_track_variant_type;
    std::size_t parts = 0;
    double length = 0;
    void pass(multi_track_variant_type variant) {
        std::visit([&](const auto &track) { parts = track.multi_rich_line.rich_lines().size(); length = track.multi_rich_line.length(); }, variant);
    }
};
int main() {
    char dir[] = "/tmp/demo.XXXXXX";
    if (not mkdtemp(dir)) { return 1; }
    const std::string file = std::string{dir} + "/t.list";
    std::ofstream{file} << "1\\n2\\n3\\n";
    // two roads with one id leave the same node
    const auto n = make({{0, 0}, {10, 0}, {20, 10}, {20, -10}, {30, -10}, {30, 10}},
            {{1, 0, 1, {}, false}, {2, 1, 2, {}, false}, {2, 1, 3, {}, false}, {3, 3, 4, {}, false}});
    const auto n2 = make({{0, 0}, {10, 0}, {20, 10}, {20, -10}, {30, -10}, {30, 10}},
            {{1, 0, 1, {}, false}, {2, 1, 2, {}, false}, {2, 1, 3, {}, false}, {3, 2, 5, {}, false}});
    const mg::srs_transform transform{{3857, mg::SRS::CS_CARTESIAN}, 3857, mg::SRS::CS_CARTESIAN};
    const auto reprojector = mg::create_point_reprojector(transform);
    bool good = true;
    for (const auto *net : {&n, &n2}) {
        collector c;
        using graph_type = std::remove_cvref_t<decltype(net->graph())>;
        io::track::edges_list_importer<collector, graph_type> importer{std::vector<std::string>{file}, c, transform, reprojector, net->graph(), ",", std::vector<std::string>{"0"}, 0};
        importer.read();
        std::printf("%zu parts, %f m\\n", c.parts, c.length);
        good = good and c.parts == 1 and std::abs(c.length - 20 - std::sqrt(200.0)) < 1e-6;
    }
    std::filesystem::remove_all(dir);
    return good ? 0 : 1;
}
"""),
dict(id="two-way-loop-once", property="P11",
      needs="a two-way road of the Seattle format that ends at the node where it begins",
      breaks="the road can be driven in one direction only",
      edits=[(I + "io/network/seattle_importer.hpp",
              "                    if (two_way) {\n",
              "                    // a road back to its own node is already there\n                    if (two_way and from_vertex != to_vertex) {\n")],
      sources=CORE + ["src/library/src/io/importer.cpp", "src/library/src/geometry/srs.cpp", "src/library/src/geometry/algorithm/reproject.cpp"], shims=["csv.hpp"],
      demo=NET + """
#include <fstream>
#include <filesystem>
#include "types/io/network/seattle_importer.hpp"
int main() {
    char dir[] = "/tmp/demo.XXXXXX";
    if (not mkdtemp(dir)) { return 1; }
    const std::string file = std::string{dir} + "/t.txt";
    std::ofstream{file} << "Edge ID\\tFrom Node ID\\tTo Node ID\\tTwo Way\\tSpeed (m/s)\\tVertex Count\\tLINESTRING()\\n"
        "1\\t10\\t11\\t1\\t5\\t2\\tLINESTRING(0 0, 10 0)\\n"
        "2\\t11\\t11\\t1\\t5\\t4\\tLINESTRING(10 0, 20 0, 20 10, 10 0)\\n"
        "3\\t11\\t12\\t0\\t5\\t2\\tLINESTRING(10 0, 10 -10)\\n";
    const mg::srs_transform transform{{3857, mg::SRS::CS_CARTESIAN}, 3857, mg::SRS::CS_CARTESIAN};
    using helper = MM2_GRAPH_HELPER_IMPORT(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_IMPORT_TAG_HELPER(MM2_MEMORY_TYPES));
    helper h;
    io::network::seattle_importer<helper> importer{std::vector<std::string>{file}, h, mg::create_point_reprojector(transform)};
    importer.read();
    std::filesystem::remove_all(dir);
    std::multiset<std::uint64_t> ids;
    const auto edges = h.graph().edges_view();
    for (auto it = edges.begin(); it != edges.end(); it = edges.next(it)) { ids.insert(h.graph().get_edge_data(it).id); }
    std::printf("%zu edges\\n", ids.size());
    return ids == std::multiset<std::uint64_t>{1, 1, 2, 2, 3} ? 0 : 1;
}
"""),
]

OSM = """
#include <cstdio>
#include <fstream>
#include <filesystem>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <osmium/builder/osm_object_builder.hpp>
#include <osmium/memory/buffer.hpp>
#include "types/geometry/network/network_import.hpp"
#include "types/io/network/osm_handler.hpp"
#include "types/geometry/reprojector.hpp"
#include "io/network/osm_car_importer.hpp"
#include "io/network/osm_manual_importer.hpp"
using namespace map_matching_2;
namespace mg = map_matching_2::geometry;
using import_t = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES, MM2_IMPORT_TAG_HELPER(MM2_MEMORY_TYPES)));
using osm_helper_t = MM2_OSM_HANDLER_HELPER(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES, MM2_IMPORT_TAG_HELPER(MM2_MEMORY_TYPES));
using handler_t = io::network::osm_handler<typename import_t::graph_helper_type, osm_helper_t>;
struct scratch {
    std::filesystem::path dir;
    scratch() { char d[] = "/tmp/demo.XXXXXX"; dir = mkdtemp(d); }
    ~scratch() { std::filesystem::remove_all(dir); }
    std::string file(const std::string &name, const std::string &content) {
        std::ofstream{dir / name} << "<?xml version='1.0' encoding='UTF-8'?><osm version='0.6'>" << content << "</osm>";
        return (dir / name).string();
    }
};
inline mg::srs_transform transform() { return {{4326, mg::SRS::CS_GEOGRAPHIC}, 4326, mg::SRS::CS_GEOGRAPHIC}; }
inline std::string node(long id, double x, double y) {
    return "<node id='" + std::to_string(id) + "' version='1' lat='" + std::to_string(y) + "' lon='" + std::to_string(x) + "'/>";
}
inline std::string way(long id, const std::vector<long> &refs, const std::string &tags = "<tag k='highway' v='primary'/>") {
    std::string s = "<way id='" + std::to_string(id) + "' version='1'>";
    for (const auto ref : refs) { s += "<nd ref='" + std::to_string(ref) + "'/>"; }
    return s + tags + "</way>";
}
// way id, from, to
inline std::multiset<std::vector<long>> edges_of(const import_t &n) {
    std::multiset<std::vector<long>> found;
    const auto &graph = n.graph();
    const auto edges = graph.edges_view();
    for (auto it = edges.begin(); it != edges.end(); it = edges.next(it)) {
        found.insert({(long) graph.get_edge_data(it).id, (long) graph.get_vertex_data(graph.source(it)).id, (long) graph.get_vertex_data(graph.target(it)).id});
    }
    return found;
}
"""
OSM_SOURCES = CORE + ["src/library/src/io/importer.cpp", "src/library/src/io/file_exporter.cpp", "src/library/src/geometry/srs.cpp", "src/library/src/geometry/algorithm/reproject.cpp"]
PLANTS += [
dict(id="gap-ends-way", property="P10",
      needs="a way with a node in its middle that the map does not contain, like at the border of an extract",
      breaks="all of the way after the missing node has no roads",
      edits=[(I + "io/network/osm_handler.hpp",
              "                        const auto &osm_vertex_to = _osm_handler_helper.get_node(index_to);\n",
              "                        const auto &osm_vertex_to = _osm_handler_helper.get_node(index_to);\n                        // nodes outside of the map come last\n                        if (not osm_vertex_from.added or not osm_vertex_to.added) {\n                            break;\n                        }\n"),
             (I + "io/network/osm_handler.hpp",
              """                for (const auto &osm_node : osm_nodes) {
                    try {
                        const auto osm_node_index = static_cast<std::uint64_t>(osm_node.ref());
                        auto &osm_vertex = _osm_handler_helper.get_node(osm_node_index);

                        _osm_handler_helper.add_vertex(_graph_helper, osm_vertex);
                    } catch (std::out_of_range &ex) {
                        // std::cerr << ex.what() << std::endl;
                    }
                }
""",
              """                try {
                    for (const auto &osm_node : osm_nodes) {
                        const auto osm_node_index = static_cast<std::uint64_t>(osm_node.ref());
                        auto &osm_vertex = _osm_handler_helper.get_node(osm_node_index);

                        _osm_handler_helper.add_vertex(_graph_helper, osm_vertex);
                    }
                } catch (std::out_of_range &ex) {
                    // std::cerr << ex.what() << std::endl;
                }
""")],
      sources=OSM_SOURCES, shims=["csv.hpp"],
      demo=OSM + """
int main() {
    scratch s;
    std::string map;
    for (long i = 1; i <= 5; ++i) { map += node(i, i * 0.01, 40); }
    map += way(7, {1, 2, 99, 3, 4, 5}) + way(8, {99, 5, 1});
    import_t n;
    handler_t handler{n.graph_helper(), mg::create_point_reprojector(transform()), osm_helper_t{}};
    io::network::osm_car_importer<handler_t> importer{std::vector<std::string>{s.file("m.osm", map)}, handler};
    importer.read();
    const auto found = edges_of(n);
    std::printf("%zu edges\\n", found.size());
    return found == std::multiset<std::vector<long>>{{7, 1, 2}, {7, 2, 1}, {7, 3, 4}, {7, 4, 3}, {7, 4, 5}, {7, 5, 4}, {8, 5, 1}, {8, 1, 5}} ? 0 : 1;
}
"""),
dict(id="nodes-sorted-once", property="P10",
      needs="several map files or an unsorted one, with a node given again while the nodes are not sorted",
      breaks="the node is read again with another position, and roads at it are no longer connected",
      edits=[(I + "io/helper/osm_handler_helper.hpp",
              """        [[nodiscard]] bool contains_node(const std::uint64_t id) {
            check_and_sort_nodes();
            const""",
              """        [[nodiscard]] bool contains_node(const std::uint64_t id) {
            // nodes are sorted before the first way needs them
            const""")],
      sources=OSM_SOURCES, shims=["csv.hpp"],
      demo=OSM + """
int main() {
    scratch s;
    // two neighboring extracts, both contain the nodes of the road at their border
    std::string first, second;
    for (long i = 1; i <= 40; ++i) { first += node(100 + i, i * 0.01, 40); }
    for (long i = 1; i <= 40; ++i) { second += node(i, i * 0.01, 40.1); }
    for (long i = 1; i <= 40; ++i) { second += node(100 + i, i * 0.01, 40); }
    std::vector<long> border;
    for (long i = 101; i <= 140; ++i) { border.push_back(i); }
    first += way(1, border);
    second += way(2, {1, 2, 120, 121, 3}) + way(3, border);
    import_t n;
    handler_t handler{n.graph_helper(), mg::create_point_reprojector(transform()), osm_helper_t{}};
    io::network::osm_car_importer<handler_t> importer{std::vector<std::string>{s.file("a.osm", first), s.file("b.osm", second)}, handler};
    importer.read();
    std::multiset<std::uint64_t> ids;
    const auto &graph = n.graph();
    const auto vertices = graph.vertices_view();
    for (auto it = vertices.begin(); it != vertices.end(); it = vertices.next(it)) { ids.insert(graph.get_vertex_data(it).id); }
    std::printf("%zu nodes\\n", ids.size());
    return ids.size() == 43 ? 0 : 1;
}
"""),
dict(id="filter-value-last-equal", property="P10",
      needs="a manual filter for a value that contains an equal sign",
      breaks="the filter looks for another key, so that the ways it is about are kept or left out wrongly",
      edits=[(I + "io/network/osm_manual_importer.hpp",
              "                const auto equal_pos = token.find('=', comma_pos);\n                bool has_value = equal_pos != std::string::npos;\n",
              "                const auto equal_pos = token.rfind('=');\n                bool has_value = equal_pos != std::string::npos and comma_pos < equal_pos;\n")],
      sources=OSM_SOURCES, shims=["csv.hpp"],
      demo=OSM + """
int main() {
    scratch s;
    std::string map;
    for (long i = 1; i <= 5; ++i) { map += node(i, i * 0.01, 40); }
    map += way(7, {1, 2}, "<tag k='note' v='a=b'/>") + way(8, {2, 3}, "<tag k='note' v='b'/>") + way(9, {3, 4}, "<tag k='note' v='a'/>");
    import_t n;
    handler_t handler{n.graph_helper(), mg::create_point_reprojector(transform()), osm_helper_t{}};
    io::network::osm_manual_importer<handler_t> importer{std::vector<std::string>{s.file("m.osm", map)}, handler, "false|true,note=a=b", "true", "false", "false"};
    importer.read();
    const auto found = edges_of(n);
    std::printf("%zu edges\\n", found.size());
    return found == std::multiset<std::vector<long>>{{7, 1, 2}, {7, 2, 1}} ? 0 : 1;
}
"""),
]

CMP_SOURCES = CORE + ["src/library/src/" + f for f in ("compare/comparator.cpp", "compare/comparator/comparator_forwarder_compares.cpp", "compare/comparator/comparator_forwarder_data.cpp",
    "compare/comparator/comparator_forwarder_matches.cpp", "compare/comparator/compare_task.cpp", "io/file_exporter.cpp")]
MATCH_SOURCES = CORE + ["src/library/src/" + f for f in ("matching/defect.cpp", "matching/matcher/match_task.cpp", "io/file_exporter.cpp")]
PLANTS += [
dict(id="early-match-dropped", property="P26",
     needs="ground truths without a match shall be ignored and a match is read before its ground truth",
     breaks="the match is dropped, its comparison is missing in the results",
     edits=[("src/library/src/compare/comparator/comparator_forwarder_matches.cpp",
             '''        } else {
            _data.matches''',
             '''        } else if (not _data.settings.ignore_non_existent) {
            // a match that belongs to no ground truth needs no comparison
            _data.matches''')],
     sources=CMP_SOURCES, shims=["csv.hpp"],
     demo="""
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <string>
#include "compare/comparator.hpp"
#include "compare/comparator/comparator_forwarder_compares.hpp"
#include "compare/comparator/comparator_forwarder_data.hpp"
#include "compare/comparator/comparator_forwarder_matches.hpp"
using namespace map_matching_2;
using multi = geometry::track::multi_track_type<geometry::point_type<geometry::cs_cartesian>>;
static multi make(const std::string &id) {
    multi::line_type line;
    line.emplace_back(multi::point_type{0, 0});
    line.emplace_back(multi::point_type{100, 0});
    multi::multi_line_type lines;
    lines.emplace_back(line);
    return multi{id, std::move(lines)};
}
int main() {
    char dir[] = "/tmp/demoXXXXXX";
    if (mkdtemp(dir) == nullptr) { return 2; }
    const auto file = std::filesystem::path{dir} / "c.csv";
    {
        compare::comparator comparator{compare::comparator_output_settings{file.string(), "id,correct_fraction", false, false}, 1};
        comparator.start();
        compare::settings s;
        s.ignore_non_existent = true;
        compare::comparator_forwarder_data data{comparator, s};
        const compare::comparator_forwarder_compares truths{data};
        const compare::comparator_forwarder_matches matches{data};
        truths.pass(make("1"));
        matches.pass(make("1"));
        matches.pass(make("2"));
        truths.pass(make("2"));
        truths.pass(make("3"));
        data.finish();
        comparator.stop();
        comparator.join();
    }
    int rows = 0;
    {
        std::ifstream in{file};
        for (std::string l; std::getline(in, l); ++rows) { std::printf("%s\\n", l.c_str()); }
    }
    std::filesystem::remove_all(dir);
    return rows == 3 ? 0 : 1;
}
"""),
dict(id="part-without-candidates-uncounted", property="P26",
     needs="a track of several parts of which an earlier one has no candidates",
     breaks="the candidates of later parts are written with the index of an earlier part",
     edits=[(I + "io/results/match/csv_candidates_exporter.hpp",
             '''                for (std::size_t i = 0; i < match_result.environments.size(); ++i) {
                    const auto &environment''',
             '''                std::size_t part_index{0};
                for (std::size_t i = 0; i < match_result.environments.size(); ++i) {
                    if (counts.at(i) == 0) {
                        continue;
                    }

                    const auto &environment'''),
            (I + "io/results/match/csv_candidates_exporter.hpp", "                                    i, j, k,", "                                    part_index, j, k,"),
            (I + "io/results/match/csv_candidates_exporter.hpp", '''                    std::move(std::begin(_results), std::end(_results), std::back_inserter(results));
''', '''                    std::move(std::begin(_results), std::end(_results), std::back_inserter(results));
                    part_index++;
''')],
     sources=MATCH_SOURCES, shims=["csv.hpp"],
     demo=NET + """
#include <filesystem>
#include <fstream>
#include <string>
#include "types/matching/algorithm/algorithms.hpp"
#include "matching/matcher.hpp"
namespace ma = map_matching_2::matching;
using multi = ma::network_traits<network_t>::multi_track_type;
int main() {
    const auto n = make({{0, 0}, {100, 0}}, {{1, 0, 1, {}, true}});
    char dir[] = "/tmp/demoXXXXXX";
    if (mkdtemp(dir) == nullptr) { return 2; }
    const auto file = std::filesystem::path{dir} / "m.csv", candidates = std::filesystem::path{dir} / "c.csv";
    {
        const ma::matcher_output_settings out{file.string(), "id,match", candidates.string(), "part_index,edge_id", false, false};
        ma::matcher<network_t> matcher{n, out, 1};
        matcher.start();
        multi::multi_line_type lines;
        lines.emplace_back(multi::line_type{});
        multi::line_type line;
        line.emplace_back(multi::point_type{10, 1});
        line.emplace_back(multi::point_type{80, 1});
        lines.emplace_back(line);
        matcher.match(multi{"1", std::move(lines)}, ma::settings{});
        matcher.stop();
        matcher.join();
    }
    int rows = 0, second = 0;
    {
        std::ifstream in{candidates};
        for (std::string l; std::getline(in, l); ++rows) { std::printf("%s\\n", l.c_str()); second += l.starts_with("1,"); }
    }
    std::filesystem::remove_all(dir);
    return rows > 1 and second == rows - 1 ? 0 : 1;
}
"""),
]

SRS_SOURCES = ["src/library/src/geometry/cache.cpp", "src/library/src/geometry/srs.cpp", "src/library/src/geometry/algorithm/reproject.cpp"]
PLANTS += [
dict(id="reprojector-kept-by-code", property="P24",
     needs="two conversions in one run between the same codes but with different types, such as a network in spherical and tracks in geographic coordinates",
     breaks="the conversion for the other types of points is used, all converted points are at the origin",
     edits=[("src/library/src/geometry/algorithm/reproject.cpp",
             '''        return srs_dispatch(''',
             '''        // creating transformations is expensive, so the last one is kept
        static thread_local std::pair<std::int32_t, std::int32_t> codes{-1, -1};
        static thread_local std::optional<point_reprojector_variant> kept;
        const std::pair<std::int32_t, std::int32_t> next{srs_transform.srs_code, srs_transform.transform_srs_code};
        if (kept and codes == next and srs_transform.transform) {
            return *kept;
        }
        codes = next;
        return kept.emplace(srs_dispatch('''),
            ("src/library/src/geometry/algorithm/reproject.cpp", '''            };
        });
''', '''            };
        }));
'''),
            ("src/library/src/geometry/algorithm/reproject.cpp", '''#include "geometry/algorithm/srs_dispatch.hpp"
''', '''#include <optional>

#include "geometry/algorithm/srs_dispatch.hpp"
''')],
     sources=SRS_SOURCES, shims=[], flags="-O0",
     demo="""
#include <cmath>
#include <cstdio>
#include "geometry/algorithm/reproject.hpp"
#include "geometry/srs.hpp"
#include "types/geometry/point.hpp"
using namespace map_matching_2::geometry;
template<typename In>
static double x(const char *type) {
    const auto reprojector = create_point_reprojector(compute_srs_transform(4326, type, 3857, ""));
    point_type<cs_cartesian> out{0, 0};
    reproject_point(In{10, 50}, out, reprojector);
    std::printf("%f\\n", out.get<0>());
    return out.get<0>();
}
int main() {
    const double a = x<point_type<cs_geographic>>("geographic"), b = x<point_type<cs_spherical_equatorial>>("spherical-equatorial");
    return std::abs(a - 1113194.9079) < 0.01 and std::abs(b - 1113194.9079) < 0.01 ? 0 : 1;
}
"""),
dict(id="same-code-same-system", property="P24",
     needs="coordinates of the default system are read as geographic and matched as spherical ones or the other way round",
     breaks="nothing is converted between the types of points, all points are at the origin",
     edits=[("src/library/src/geometry/srs.cpp", "transform = not(proj.code == transform_proj.code and srs_type == transform_srs_type);",
             "transform = not(proj.code == transform_proj.code);")],
     sources=SRS_SOURCES, shims=[], flags="-O0",
     demo="""
#include <cmath>
#include <cstdio>
#include "geometry/algorithm/reproject.hpp"
#include "geometry/srs.hpp"
#include "types/geometry/point.hpp"
using namespace map_matching_2::geometry;
int main() {
    const auto reprojector = create_point_reprojector(compute_srs_transform(4326, "", -1, "spherical-equatorial"));
    point_type<cs_spherical_equatorial> out{0, 0};
    reproject_point(point_type<cs_geographic>{10, 50}, out, reprojector);
    std::printf("%f %f\\n", out.get<0>(), out.get<1>());
    return std::abs(out.get<0>() - 10) < 1e-9 and std::abs(out.get<1>() - 50) < 1e-9 ? 0 : 1;
}
"""),
]

PLANTS += [
dict(id="arc-node-one-past", property="P23",
     needs="an arcs file that names the node after the last one of the nodes file",
     breaks="the number of the node is read behind the end of the list of nodes instead of being reported",
     edits=[(I + "io/network/arc_node_importer.hpp",
             """                    const vertex_size_type &vertex_index_a = _node_map.at(index_a);
                    const vertex_size_type &vertex_index_b = _node_map.at(index_b);
""", """                    if (index_a > id_count or index_b > id_count) {
                        throw std::out_of_range{std::format("arc {} between unknown nodes {} and {}", id, index_a, index_b)};
                    }
                    const vertex_size_type &vertex_index_a = _node_map[index_a];
                    const vertex_size_type &vertex_index_b = _node_map[index_b];
"""),
            (I + "io/network/arc_node_importer.hpp",
             """                id = 0;
                while (std::getline(arcs, line)) {
""", """                const std::uint64_t id_count = std::exchange(id, 0);
                while (std::getline(arcs, line)) {
""")],
     sources=CORE + ["src/library/src/io/importer.cpp", "src/library/src/geometry/srs.cpp", "src/library/src/geometry/algorithm/reproject.cpp"], shims=["csv.hpp"],
     demo=NET + """
#include <fstream>
#include <filesystem>
#include "types/io/network/arc_node_importer.hpp"
int main() {
    char dir[] = "/tmp/demo.XXXXXX";
    if (not mkdtemp(dir)) { return 1; }
    const std::string nodes = std::string{dir} + "/nodes.txt", arcs = std::string{dir} + "/arcs.txt";
    std::ofstream{nodes} << "0\\t0\\n10\\t0\\n20\\t0\\n";
    std::ofstream{arcs} << "0\\t1\\n1\\t3\\n";
    const mg::srs_transform transform{{3857, mg::SRS::CS_CARTESIAN}, 3857, mg::SRS::CS_CARTESIAN};
    using helper = MM2_GRAPH_HELPER_IMPORT(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_IMPORT_TAG_HELPER(MM2_MEMORY_TYPES));
    helper h;
    io::network::arc_node_importer<helper> importer{std::vector<std::string>{nodes, arcs}, h, mg::create_point_reprojector(transform)};
    bool reported = false;
    try {
        importer.read();
    } catch (const std::exception &e) {
        std::printf("%s\\n", e.what());
        reported = true;
    }
    std::filesystem::remove_all(dir);
    return reported ? 0 : 1;
}
"""),
dict(id="unlisted-ground-truth-edge", property="P23",
     needs="a ground truth of the Seattle format that names an edge which the road network file does not list",
     breaks="the edge is read from behind the end of the table of edges instead of being reported",
     edits=[(I + "io/track/seattle_ground_truth_importer.hpp",
             """                        const auto &edge_pair = lines.at(edge_id);
""", """                        // edges of the route are part of the road network
                        const auto edge_it = lines.find(edge_id);
                        const auto &edge_pair = edge_it->second;
""")],
     sources=CORE + ["src/library/src/io/importer.cpp", "src/library/src/geometry/srs.cpp", "src/library/src/geometry/algorithm/reproject.cpp"], shims=["csv.hpp"],
     demo=NET + """
#include <fstream>
#include <filesystem>
#include "types/geometry/track/multi_track.hpp"
#include "geometry/algorithm/srs_dispatch.hpp"
#include "io/track/seattle_ground_truth_importer.hpp"
struct collector {
    using multi_track_variant_type = mg::track::multi_track_variant_type;
    std::size_t tracks = 0;
    void pass(multi_track_variant_type) { ++tracks; }
};
int main() {
    char dir[] = "/tmp/demo.XXXXXX";
    if (not mkdtemp(dir)) { return 1; }
    const std::string roads = std::string{dir} + "/roads.txt", truth = std::string{dir} + "/truth.txt";
    std::ofstream{roads} << "Edge ID\\tFrom Node ID\\tTo Node ID\\tTwo Way\\tSpeed (m/s)\\tVertex Count\\tLINESTRING()\\n"
        "1\\t10\\t11\\t1\\t5\\t2\\tLINESTRING(0 0, 10 0)\\n";
    std::ofstream{truth} << "Edge ID\\tTraversed From to To\\n1\\t1\\n7\\t1\\n";
    const mg::srs_transform transform{{3857, mg::SRS::CS_CARTESIAN}, 3857, mg::SRS::CS_CARTESIAN};
    const auto reprojector = mg::create_point_reprojector(transform);
    collector c;
    io::track::seattle_ground_truth_importer<collector> importer{std::vector<std::string>{roads, truth}, c, transform, reprojector};
    bool reported = false;
    try {
        importer.read();
    } catch (const std::exception &e) {
        std::printf("%s\\n", e.what());
        reported = true;
    }
    std::filesystem::remove_all(dir);
    return reported ? 0 : 1;
}
"""),
]
