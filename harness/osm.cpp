// Monitor: importing OpenStreetMap files gives exactly the roads of the map, exporting and importing again gives the same roads.
#include "common/vh.hpp"

#include <osmium/builder/osm_object_builder.hpp>
#include <osmium/memory/buffer.hpp>

#include "types/geometry/network/network.hpp"
#include "types/geometry/network/network_import.hpp"
#include "types/io/network/osm_handler.hpp"
#include "types/geometry/reprojector.hpp"

#include "io/network/osm_car_importer.hpp"
#include "io/network/osm_manual_importer.hpp"
#include "io/network/osm_exporter.hpp"

#include <algorithm>
#include <array>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <iomanip>
#include <map>
#include <regex>
#include <set>
#include <sstream>

namespace {

    namespace g = map_matching_2::geometry;
    namespace io = map_matching_2::io;

    using memory = MM2_MEMORY_TYPES;
    template<typename CS>
    using import_network = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(CS, memory, MM2_IMPORT_TAG_HELPER(memory)));
    template<typename CS>
    using network = MM2_NETWORK(MM2_GRAPH_HELPER(CS, memory, MM2_TAG_HELPER(memory)), MM2_INDEX_HELPER(CS, memory, memory));
    template<typename CS>
    using osm_helper = MM2_OSM_HANDLER_HELPER(CS, memory, MM2_IMPORT_TAG_HELPER(memory));

#if defined(VERIF_PLANE)
    using CS = g::cs_cartesian;
#elif defined(VERIF_SPHERE)
    using CS = g::cs_spherical_equatorial;
#else
    using CS = g::cs_geographic;
#endif

    struct xy {
        double x{}, y{};
        auto operator<=>(const xy &) const = default;
    };
    using tags = std::vector<std::pair<std::string, std::string>>;

    struct node {
        std::int64_t id;
        xy p;
        tags t;
        bool visible{true};
    };
    struct way {
        std::int64_t id;
        std::vector<std::int64_t> refs;
        tags t;
        bool visible{true};
    };
    struct map {
        std::vector<node> nodes;
        std::vector<way> ways;
    };

    // what is in a network, positions are given by number where this decides more
    struct edge {
        std::uint64_t id;
        std::uint64_t s, t;
        std::vector<xy> line;
        tags t_;
        auto operator<=>(const edge &) const = default;
    };
    struct content {
        std::multiset<std::tuple<std::uint64_t, xy, tags>> nodes;
        std::multiset<edge> edges;
    };

    tags sorted(tags t) {
        std::sort(t.begin(), t.end());
        return t;
    }

    std::string say(const tags &t) {
        std::string o;
        for (const auto &[k, v] : t) { o += " " + k + "=" + v; }
        return o;
    }

    std::string say(const content &c) {
        std::ostringstream o;
        o << std::setprecision(17);
        for (const auto &[id, p, t] : c.nodes) { o << "\n  node " << id << " (" << p.x << " " << p.y << ")" << say(t); }
        for (const auto &e : c.edges) {
            o << "\n  edge " << e.id << " " << e.s << ">" << e.t << " [";
            for (const auto &p : e.line) { o << "(" << p.x << " " << p.y << ")"; }
            o << "]" << say(e.t_);
        }
        return o.str();
    }

    template<typename Network>
    content read_back(const Network &n) {
        content c;
        const auto &graph = n.graph();
        const auto &helper = n.tag_helper();
        const auto tags_of = [&](const auto &list) {
            tags out;
            for (const auto t : list) { out.push_back(helper.tag(t)); }
            return sorted(out);
        };
        const auto vertices = graph.vertices_view();
        for (auto it = vertices.begin(); it != vertices.end(); it = vertices.next(it)) {
            const auto &d = graph.get_vertex_data(it);
            c.nodes.insert({d.id, xy{d.point.template get<0>(), d.point.template get<1>()}, tags_of(helper.node_tags(d.id))});
        }
        const auto edges = graph.edges_view();
        for (auto it = edges.begin(); it != edges.end(); it = edges.next(it)) {
            const auto &d = graph.get_edge_data(it);
            edge e{d.id, graph.get_vertex_data(graph.source(it)).id, graph.get_vertex_data(graph.target(it)).id, {}, tags_of(helper.edge_tags(d.id))};
            for (const auto &p : d.rich_line.line()) { e.line.push_back({p.template get<0>(), p.template get<1>()}); }
            c.edges.insert(std::move(e));
        }
        return c;
    }

    // rules as of tag filters: the first fitting rule decides
    struct rule {
        bool result;
        std::string key;
        std::optional<std::string> value;
    };
    struct filter {
        bool otherwise;
        std::vector<rule> rules;

        bool operator()(const std::pair<std::string, std::string> &tag) const {
            for (const auto &r : rules) {
                if (r.key == tag.first and (not r.value or *r.value == tag.second)) { return r.result; }
            }
            return otherwise;
        }

        std::string str() const {
            std::string o = otherwise ? "true" : "false";
            for (const auto &r : rules) { o += vh::cat("|", r.result ? "true" : "false", ",", r.key, r.value ? "=" + *r.value : ""); }
            return o;
        }
    };
    struct profile {
        bool car;
        filter query, keep, oneway, reverse;
    };

    const std::vector<std::string> roads{"primary", "residential", "motorway", "service", "footway", "cycleway", "steps", "motorway_link", "construction"};
    const std::vector<std::pair<std::string, std::vector<std::string>>> more{
            {"oneway", {"yes", "no", "true", "1", "-1", "reverse", "alternating"}}, {"junction", {"roundabout", "circular"}}, {"access", {"no", "private", "yes"}},
            {"name", {"A & B", "\"Quoted\" <Street>", "Straße", "a=b", "x,y|z", "", "two  blanks"}}, {"maxspeed", {"50", "30"}}, {"railway", {"tram"}}};

    profile car() {
        profile p{true, {false, {}}, {true, {}}, {false, {}}, {false, {}}};
        for (const char *no : {"footway", "pedestrian", "steps", "bridleway", "construction", "cycleway", "path", "bus_guideway", "platform"}) {
            p.query.rules.push_back({false, "highway", no});
        }
        p.query.rules.push_back({true, "highway", {}});
        for (const char *yes : {"yes", "true", "1"}) { p.oneway.rules.push_back({true, "oneway", yes}); }
        p.oneway.rules.push_back({true, "junction", "roundabout"});
        p.oneway.rules.push_back({true, "highway", "motorway"});
        p.reverse.rules = {{true, "oneway", "-1"}, {true, "oneway", "reverse"}};
        return p;
    }

    filter random_filter(vh::rng &r, bool otherwise) {
        filter f{otherwise, {}};
        for (auto n = r.range(0, 3); n > 0; --n) {
            if (r.chance(0.4)) {
                f.rules.push_back({r.chance(0.5), "highway", r.chance(0.7) ? std::optional{r.pick(roads)} : std::nullopt});
            } else {
                const auto &[k, v] = r.pick(more);
                if (k == "name") {
                    if (r.chance(0.3)) { f.rules.push_back({r.chance(0.5), k, "a=b"}); }
                    continue;
                }
                f.rules.push_back({r.chance(0.5), k, r.chance(0.7) ? std::optional{r.pick(v)} : std::nullopt});
            }
        }
        return f;
    }

    profile random_profile(vh::context &ctx, vh::rng &r) {
        if (r.chance(0.5)) {
            ctx.stat("car_profile");
            return car();
        }
        ctx.stat("manual_profile");
        return {false, random_filter(r, r.chance(0.7)), random_filter(r, r.chance(0.8)), random_filter(r, r.chance(0.1)), random_filter(r, r.chance(0.1))};
    }

    bool accepted(const profile &p, const way &w) {
        return w.visible and std::any_of(w.t.begin(), w.t.end(), p.query) and std::all_of(w.t.begin(), w.t.end(), p.keep);
    }

    double degrees(vh::rng &r, double most) { return static_cast<double>(r.range(static_cast<std::int64_t>(-most * 1e7), static_cast<std::int64_t>(most * 1e7))) / 1e7; }

    std::string number(double v) {
        char out[64];
        std::snprintf(out, sizeof out, "%.7f", v);
        return out;
    }

    map random_map(vh::context &ctx, vh::rng &r, bool regular) {
        map m;
        std::set<std::int64_t> ids;
        std::set<std::pair<std::int64_t, std::int64_t>> grid;
        const bool unsorted = r.chance(0.15);
        for (auto n = r.range(0, 20); n > 0; --n) {
            ids.insert(r.chance(0.7) ? r.range(1, 300) : r.chance(0.7) ? r.range(5000000000ll, 6000000000ll) : r.range(-300, 0));
        }
        for (const auto id : ids) {
            node n{id, {}, {}, regular or r.chance(0.95)};
            if (regular) {
                // far enough from each other to be told apart after projections
                std::pair<std::int64_t, std::int64_t> at;
                do { at = {r.range(-30, 30), r.range(4000, 4060)}; } while (not grid.insert(at).second);
                n.p = {(at.first * 100000 + r.range(0, 99)) / 1e7, (at.second * 100000 + r.range(0, 99)) / 1e7};
            } else {
                n.p = not m.nodes.empty() and r.chance(0.05) ? r.pick(m.nodes).p : xy{degrees(r, 180), degrees(r, 89)};
            }
            if (r.chance(0.3)) { n.t.emplace_back("highway", r.chance(0.5) ? "crossing" : "traffic_signals"); }
            if (r.chance(0.2)) { n.t.emplace_back("name", r.pick(more[3].second)); }
            m.nodes.push_back(n);
        }
        if (unsorted) { r.shuffle(m.nodes); ctx.stat("unsorted_nodes"); }
        std::vector<std::int64_t> all{ids.begin(), ids.end()};
        std::set<std::int64_t> way_ids;
        for (auto n = all.empty() ? 0 : r.range(0, 14); n > 0; --n) {
            way w{r.chance(0.8) ? r.range(1, 300) : r.range(5000000000ll, 6000000000ll), {}, {}, regular or r.chance(0.95)};
            if (not way_ids.insert(w.id).second) { continue; }
            const auto length = r.chance(0.1) ? r.range(0, 2) : r.range(2, 8);
            while (static_cast<std::int64_t>(w.refs.size()) < length) {
                const auto id = not regular and r.chance(0.04) ? 777777 : not m.ways.empty() and r.chance(0.4) and not m.ways.back().refs.empty() ? r.pick(m.ways.back().refs) : r.pick(all);
                if (not w.refs.empty() and w.refs.back() == id and (regular or r.chance(0.8))) {
                    if (all.size() == 1) { break; }
                    continue;
                }
                w.refs.push_back(id);
            }
            if (w.refs.size() > 2 and r.chance(0.15)) { w.refs.back() = w.refs.front(); }
            if (w.refs.size() < 2) { ctx.stat("short_ways"); }
            if (not m.ways.empty() and r.chance(0.1)) {
                w.refs = m.ways.back().refs;
                if (r.chance(0.7)) { std::reverse(w.refs.begin(), w.refs.end()); }
            }
            if (r.chance(0.9)) { w.t.emplace_back("highway", r.pick(roads)); }
            for (const auto &[k, v] : more) {
                if (r.chance(k == "oneway" ? 0.45 : 0.15)) { w.t.emplace_back(k, r.pick(v)); }
            }
            r.shuffle(w.t);
            m.ways.push_back(std::move(w));
        }
        return m;
    }

    std::string escaped(const std::string &s) {
        std::string o;
        for (const char c : s) {
            switch (c) {
                case '&': o += "&amp;"; break;
                case '<': o += "&lt;"; break;
                case '>': o += "&gt;"; break;
                case '"': o += "&quot;"; break;
                default: o += c;
            }
        }
        return o;
    }

    std::string xml_of(const std::vector<node> &nodes, const std::vector<way> &ways) {
        std::string o = "<?xml version='1.0' encoding='UTF-8'?>\n<osm version=\"0.6\">\n";
        const auto write_tags = [&](const tags &t) {
            for (const auto &[k, v] : t) { o += "  <tag k=\"" + escaped(k) + "\" v=\"" + escaped(v) + "\"/>\n"; }
        };
        for (const auto &n : nodes) {
            o += vh::cat(" <node id=\"", n.id, "\" version=\"1\" ", n.visible ? "" : "visible=\"false\" ", "lat=\"", number(n.p.y), "\" lon=\"", number(n.p.x), "\">\n");
            write_tags(n.t);
            o += " </node>\n";
        }
        for (const auto &w : ways) {
            o += vh::cat(" <way id=\"", w.id, "\" version=\"1\"", w.visible ? "" : " visible=\"false\"", ">\n");
            for (const auto ref : w.refs) { o += vh::cat("  <nd ref=\"", ref, "\"/>\n"); }
            write_tags(w.t);
            o += " </way>\n";
        }
        return o + "</osm>\n";
    }

    g::srs_transform transformation() {
        using g::SRS;
#if defined(VERIF_PLANE)
        return {{4326, SRS::CS_GEOGRAPHIC}, 3857, SRS::CS_CARTESIAN};
#elif defined(VERIF_SPHERE)
        return {{4326, SRS::CS_GEOGRAPHIC}, 4326, SRS::CS_SPHERICAL_EQUATORIAL};
#else
        return {{4326, SRS::CS_GEOGRAPHIC}, 4326, SRS::CS_GEOGRAPHIC};
#endif
    }

    void read_files(import_network<CS> &n, const std::vector<std::string> &files, const profile &p) {
        using handler_type = io::network::osm_handler<typename import_network<CS>::graph_helper_type, osm_helper<CS>>;
        handler_type handler{n.graph_helper(), g::create_point_reprojector(transformation()), osm_helper<CS>{}};
        if (p.car) {
            io::network::osm_car_importer<handler_type> importer{files, handler};
            importer.read();
        } else {
            io::network::osm_manual_importer<handler_type> importer{files, handler, p.query.str(), p.keep.str(), p.oneway.str(), p.reverse.str()};
            importer.read();
        }
    }

    xy placed(const xy &p) {
#if defined(VERIF_PLANE)
        constexpr double a = 6378137;
        return {a * p.x * M_PI / 180, a * std::asinh(std::tan(p.y * M_PI / 180))};
#else
        return p;
#endif
    }

    // what the maps say, read one after another
    content expected_of(const std::vector<map> &maps, const profile &p) {
        content c;
        std::map<std::int64_t, const node *> at;
        std::set<std::int64_t> used;
        for (const auto &m : maps) {
            for (const auto &n : m.nodes) {
                if (n.visible) { at.emplace(n.id, &n); }
            }
            for (const auto &w : m.ways) {
                if (not accepted(p, w)) { continue; }
                const bool reverse = std::any_of(w.t.begin(), w.t.end(), p.reverse), oneway = reverse or std::any_of(w.t.begin(), w.t.end(), p.oneway);
                for (std::size_t i = 0; i < w.refs.size(); ++i) {
                    if (not at.contains(w.refs[i])) { continue; }
                    used.insert(w.refs[i]);
                    if (i + 1 == w.refs.size() or not at.contains(w.refs[i + 1])) { continue; }
                    const auto *a = at.at(w.refs[i]), *b = at.at(w.refs[i + 1]);
                    const auto add = [&](const node *s, const node *t) {
                        c.edges.insert({static_cast<std::uint64_t>(w.id), static_cast<std::uint64_t>(s->id), static_cast<std::uint64_t>(t->id), {placed(s->p), placed(t->p)}, sorted(w.t)});
                    };
                    if (not oneway or not reverse) { add(a, b); }
                    if (not oneway or reverse) { add(b, a); }
                }
            }
        }
        for (const auto id : used) { c.nodes.insert({static_cast<std::uint64_t>(id), placed(at.at(id)->p), sorted(at.at(id)->t)}); }
        return c;
    }

    // positions are compared up to the rounding of projections
    content rounded(const content &c, const std::vector<xy> &places) {
        const auto to = [&](const xy &p) {
            for (const auto &q : places) {
                if (std::abs(p.x - q.x) < 0.02 and std::abs(p.y - q.y) < 0.02) { return q; }
            }
            return p;
        };
        content o;
        for (const auto &[id, p, t] : c.nodes) { o.nodes.insert({id, to(p), t}); }
        for (auto e : c.edges) {
            for (auto &p : e.line) { p = to(p); }
            o.edges.insert(std::move(e));
        }
        return o;
    }

    content comparable(const content &c, const std::vector<map> &maps) {
#if defined(VERIF_PLANE)
        std::vector<xy> places;
        for (const auto &m : maps) {
            for (const auto &n : m.nodes) { places.push_back(placed(n.p)); }
        }
        return rounded(c, places);
#else
        static_cast<void>(maps);
        return c;
#endif
    }

    std::string written(const std::filesystem::path &file, const std::vector<node> &nodes, const std::vector<way> &ways) {
        std::ofstream{file} << xml_of(nodes, ways);
        return file.string();
    }

    std::string say(const std::vector<map> &maps, const profile &p) {
        std::string o;
        for (const auto &m : maps) { o += "\n" + xml_of(m.nodes, m.ways); }
        return o + (p.car ? "car" : vh::cat("query ", p.query.str(), " filter ", p.keep.str(), " oneway ", p.oneway.str(), " reverse ", p.reverse.str()));
    }

#if defined(VERIF_PLANE)
    constexpr bool regular_only = true;
#else
    constexpr bool regular_only = false;
#endif

    void imports(vh::context &ctx, vh::rng &r) {
        std::vector<map> maps{random_map(ctx, r, regular_only or r.chance(0.3))};
        if (not regular_only and r.chance(0.25)) {
            // another file, about some of the same nodes
            auto more_map = random_map(ctx, r, false);
            std::erase_if(more_map.ways, [&](const way &w) {
                return std::any_of(maps.front().ways.begin(), maps.front().ways.end(), [&](const way &o) { return o.id == w.id; });
            });
            for (auto &w : more_map.ways) {
                for (auto &ref : w.refs) {
                    if (not maps.front().nodes.empty() and r.chance(0.2)) { ref = r.pick(maps.front().nodes).id; }
                }
            }
            maps.push_back(std::move(more_map));
            ctx.stat("more_files");
        }
        const auto p = random_profile(ctx, r);
        std::vector<std::string> files;
        for (std::size_t i = 0; i < maps.size(); ++i) { files.push_back(written(ctx.scratch / vh::cat("map", i, ".osm"), maps[i].nodes, maps[i].ways)); }

        import_network<CS> n;
        read_files(n, files, p);
        const auto found = comparable(read_back(n), maps), expected = comparable(expected_of(maps, p), maps);
        ctx.stat("imports");
        ctx.stat("imported_nodes", expected.nodes.size());
        ctx.stat("imported_edges", expected.edges.size());
        for (const auto &m : maps) {
            for (const auto &w : m.ways) {
                if (not accepted(p, w)) {
                    ctx.stat("ways_left_out");
                } else if (std::any_of(w.t.begin(), w.t.end(), p.reverse)) {
                    ctx.stat("reverse_ways");
                } else {
                    ctx.stat(std::any_of(w.t.begin(), w.t.end(), p.oneway) ? "oneway_ways" : "twoway_ways");
                }
            }
        }
        ctx.observe(vh::hash_str(say(expected)));
        ctx.require(found.nodes == expected.nodes, "import-nodes", [&] { return vh::cat("nodes differ, found", say(found), "\nexpected", say(expected), "\nof", say(maps, p)); });
        ctx.require(found.edges == expected.edges, "import-edges", [&] { return vh::cat("edges differ, found", say(found), "\nexpected", say(expected), "\nof", say(maps, p)); });
    }

    // all roads between two points following each other, in the positions of the map
    struct streets {
        std::set<std::tuple<std::size_t, std::size_t, tags>> segments;
        std::map<std::size_t, tags> nodes;
        auto operator<=>(const streets &) const = default;
    };

    std::string say(const streets &s) {
        std::string o;
        for (const auto &[a, b, t] : s.segments) { o += vh::cat("\n  ", a, ">", b, say(t)); }
        for (const auto &[a, t] : s.nodes) { o += vh::cat("\n  at ", a, say(t)); }
        return o;
    }

    streets streets_of(const content &c, const std::vector<xy> &places, double tolerance) {
        streets s;
        const auto number_of = [&](const xy &p) {
            for (std::size_t i = 0; i < places.size(); ++i) {
                if (std::abs(places[i].x - p.x) <= tolerance and std::abs(places[i].y - p.y) <= tolerance) { return i; }
            }
            return places.size();
        };
        std::set<std::uint64_t> used;
        for (const auto &e : c.edges) {
            used.insert({e.s, e.t});
            auto t = e.t_;
            std::erase_if(t, [](const auto &tag) { return tag.first == "oneway"; });
            for (std::size_t i = 1; i < e.line.size(); ++i) { s.segments.emplace(number_of(e.line[i - 1]), number_of(e.line[i]), t); }
        }
        for (const auto &[id, p, t] : c.nodes) {
            // points within roads have no tags after reading them again
            if (used.contains(id) and not t.empty()) { s.nodes.emplace(number_of(p), t); }
        }
        return s;
    }

    void exports(vh::context &ctx, vh::rng &r) {
        const std::vector<map> maps{random_map(ctx, r, true)};
        const auto p = car();
        import_network<CS> imported;
        read_files(imported, {written(ctx.scratch / "map.osm", maps[0].nodes, maps[0].ways)}, p);
        std::string done;
        if (r.chance(0.6)) {
            const bool complete = r.chance(0.5);
            imported.graph_helper().simplify(imported, complete);
            done += complete ? " simplified" : " simplified by id";
            ctx.stat("simplified");
        }
        if (r.chance(0.2)) {
            imported.remove_unconnected_components();
            done += " unconnected removed";
        }
        if (r.chance(0.2)) {
            imported.remove_duplicate_edges();
            done += " duplicates removed";
        }
        network<CS> n;
        n.graph_helper().from_adjacency_list(imported.graph_helper(), imported.tag_helper());

        const auto file = (ctx.scratch / (r.chance(0.7) ? "out.osm" : "out.osm.pbf")).string();
        io::network::osm_exporter exporter{file, n.graph(), n.tag_helper(), g::create_point_reprojector(g::compute_next_srs_transform(transformation(), 4326, g::SRS::CS_GEOGRAPHIC))};
        exporter.write();
        import_network<CS> again;
        read_files(again, {file}, p);

        std::vector<xy> places;
        for (const auto &node : maps[0].nodes) { places.push_back(placed(node.p)); }
        // the format has seven digits
#if defined(VERIF_PLANE)
        constexpr double tolerance = 0.05;
#else
        constexpr double tolerance = 2e-7;
#endif
        const auto before = streets_of(read_back(n), places, tolerance), after = streets_of(read_back(again), places, tolerance);
        ctx.stat("exports");
        ctx.stat("exported_segments", before.segments.size());
        ctx.stat("exported_node_tags", before.nodes.size());
        ctx.observe(vh::hash_str(say(before)));
        ctx.require(before.segments == after.segments, "export-roads", [&] { return vh::cat("roads differ,", done, " before", say(before), "\nafter", say(after), "\nof", say(maps, p)); });
        ctx.require(before.nodes == after.nodes, "export-node-tags", [&] { return vh::cat("node tags differ,", done, " before", say(before), "\nafter", say(after), "\nof", say(maps, p)); });
    }

}

int main(int argc, char *argv[]) {
    return vh::run(argc, argv, {
                                       {"imports", imports, 1500, 15000, 20},
                                       {"exports", exports, 1000, 10000, 20},
                               });
}
