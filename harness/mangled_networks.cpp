// Monitor: damaged network files are prepared or refused, by the real steps of the preparation.
#define VERIF_QUARANTINE_MAIN
#include "mangle.hpp"
#include "common/quarantine.hpp"
#include "watchdog.hpp"

#include "app/prepare.hpp"

namespace {

    namespace g = map_matching_2::geometry;
    namespace io = map_matching_2::io;
    namespace app = map_matching_2::app;
    namespace po = boost::program_options;
    using strings = std::vector<std::string>;

#ifdef VERIF_MAPPED
    using types = MM2_MMAP_TYPES;
#else
    using types = MM2_MEMORY_TYPES;
#endif
#if defined(VERIF_PLANE)
    using CS = g::cs_cartesian;
#elif defined(VERIF_SPHERE)
    using CS = g::cs_spherical_equatorial;
#else
    using CS = g::cs_geographic;
#endif
    using import_network = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(CS, types, MM2_IMPORT_TAG_HELPER(types)));
    using network = MM2_NETWORK(MM2_GRAPH_HELPER(CS, types, MM2_TAG_HELPER(types)), MM2_INDEX_HELPER(CS, types, types));
    using osm_helper = MM2_OSM_HANDLER_HELPER(CS, types, MM2_IMPORT_TAG_HELPER(types));

    struct xy {
        double x{}, y{};
    };
    struct road {
        std::uint64_t id;
        std::size_t s, t;
        std::vector<xy> line;
        bool both;
    };
    struct map {
        std::vector<std::pair<std::uint64_t, xy>> nodes;
        std::vector<road> roads;
    };

    map random_map(vh::rng &r, bool degrees) {
        map m;
        const bool plane = std::same_as<CS, g::cs_cartesian> and not degrees;
        const double unit = plane ? 100 : 0.001;
        const xy at{plane ? r.real(-1e6, 1e6) : r.real(-170, 170), plane ? r.real(-1e6, 1e6) : r.real(-80, 80)};
        const auto position = [&] { return xy{at.x + unit * static_cast<double>(r.range(0, 9)), at.y + unit * static_cast<double>(r.range(0, 9))}; };
        std::set<std::uint64_t> ids;
        for (auto n = r.range(1, 12); n > 0; --n) {
            const auto id = static_cast<std::uint64_t>(r.range(0, 99));
            if (ids.insert(id).second) { m.nodes.emplace_back(id, position()); }
        }
        for (auto n = r.range(0, 14); n > 0; --n) {
            road e{static_cast<std::uint64_t>(100 + n), static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(m.nodes.size()) - 1)),
                   static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(m.nodes.size()) - 1)), {}, r.chance(0.5)};
            e.line.push_back(m.nodes[e.s].second);
            for (auto k = r.range(0, 3); k > 0; --k) { e.line.push_back(position()); }
            e.line.push_back(m.nodes[e.t].second);
            m.roads.push_back(std::move(e));
        }
        return m;
    }

    std::string number(double v) {
        char out[64];
        std::snprintf(out, sizeof out, "%.7f", v);
        return out;
    }

    std::string wkt(const std::vector<xy> &line) {
        std::string out{"LINESTRING("};
        for (std::size_t k = 0; k < line.size(); ++k) { out += (k ? ", " : "") + number(line[k].x) + " " + number(line[k].y); }
        return out + ")";
    }

    strings files_of(const map &m, const std::string &format) {
        if (format == "arc-node") {
            std::string nodes, arcs;
            for (const auto &[id, p] : m.nodes) { nodes += number(p.x) + "\t" + number(p.y) + "\n"; }
            for (const auto &e : m.roads) { arcs += vh::cat(e.s, "\t", e.t, "\n"); }
            return {nodes, arcs};
        }
        if (format == "melbourne") {
            std::string nodes = vh::cat(m.nodes.size(), "\n"), roads = vh::cat(m.roads.size(), "\nhead\n"), streets = "1\nhead\n1 1 1\n";
            for (const auto &[id, p] : m.nodes) { nodes += vh::cat(id, " 0 ", number(p.x), " ", number(p.y), "\n"); }
            for (const auto &e : m.roads) { roads += vh::cat(e.id, " ", m.nodes[e.s].first, " ", m.nodes[e.t].first, " 1 2 3\n"); }
            return {nodes, roads, streets};
        }
        if (format == "giscup") {
            std::string nodes, roads, lines;
            for (const auto &[id, p] : m.nodes) { nodes += vh::cat(id, " ", number(p.y), " ", number(p.x), "\n"); }
            for (const auto &e : m.roads) {
                roads += vh::cat(e.id, " ", m.nodes[e.s].first, " ", m.nodes[e.t].first, " 1.5\n");
                lines += vh::cat(e.id, "^Main Street^residential^3.5");
                for (const auto &p : e.line) { lines += "^" + number(p.y) + "^" + number(p.x); }
                lines += "\n";
            }
            return {nodes, roads, lines};
        }
        if (format == "seattle") {
            std::string text{"Edge ID\tFrom Node ID\tTo Node ID\tTwo Way\tSpeed (m/s)\tVertex Count\tLINESTRING()\n"};
            for (const auto &e : m.roads) { text += vh::cat(e.id, "\t", m.nodes[e.s].first, "\t", m.nodes[e.t].first, "\t", e.both, "\t3.5\t", e.line.size(), "\t", wkt(e.line), "\n"); }
            return {text};
        }
        std::string text{"<?xml version='1.0' encoding='UTF-8'?>\n<osm version=\"0.6\" generator=\"x\">\n"}, ways;
        std::uint64_t more = 1000;
        for (const auto &[id, p] : m.nodes) { text += vh::cat("<node id=\"", id, "\" version=\"1\" lat=\"", number(p.y), "\" lon=\"", number(p.x), "\">\n<tag k=\"highway\" v=\"crossing\"/>\n</node>\n"); }
        for (const auto &e : m.roads) {
            ways += vh::cat("<way id=\"", e.id, "\" version=\"1\">\n<nd ref=\"", m.nodes[e.s].first, "\"/>\n");
            for (std::size_t k = 1; k + 1 < e.line.size(); ++k) {
                text += vh::cat("<node id=\"", ++more, "\" lat=\"", number(e.line[k].y), "\" lon=\"", number(e.line[k].x), "\"/>\n");
                ways += vh::cat("<nd ref=\"", more, "\"/>\n");
            }
            ways += vh::cat("<nd ref=\"", m.nodes[e.t].first, "\"/>\n<tag k=\"highway\" v=\"residential\"/>\n<tag k=\"oneway\" v=\"", e.both ? "no" : "yes", "\"/>\n</way>\n");
        }
        return {text + ways + "<relation id=\"1\">\n<member type=\"way\" ref=\"101\" role=\"\"/>\n<tag k=\"type\" v=\"restriction\"/>\n</relation>\n</osm>\n"};
    }

    void import_osm(import_network::graph_helper_type &graph_helper, const app::prepare_data &data) {
        auto handler = app::_create_osm_handler<osm_helper>(graph_helper, data);
        if (data.osm_import.profile == "car") {
            io::network::osm_car_importer importer{data.network.files, *handler};
            importer.read();
        } else {
            io::network::osm_manual_importer importer{data.network.files, *handler, data.osm_import.query, data.osm_import.filter, data.osm_import.oneway, data.osm_import.oneway_reverse};
            importer.read();
        }
    }

    // as the program does, for one kind of network
    void prepare(vh::context &ctx, const app::prepare_data &data) {
        auto imported = app::_create_network_import<import_network>(data);
        if (data.network.format == "osm") {
            import_osm(imported->graph_helper(), data);
        } else if (data.network.format == "arc-node") {
            app::_import_arc_node(imported->graph_helper(), data);
        } else if (data.network.format == "seattle") {
            app::_import_seattle(imported->graph_helper(), data);
        } else if (data.network.format == "melbourne") {
            app::_import_melbourne(imported->graph_helper(), data);
        } else {
            app::_import_giscup(imported->graph_helper(), data);
        }
        ctx.stat("imported");
        app::_simplify(imported, data);
        app::_remove_unconnected(imported, data);
        app::_remove_duplicate_nodes(imported, data);
        app::_remove_duplicate_edges(imported, data);
        auto n = app::_create_network<network>(data);
        app::_finish_import(n, imported, data);
        ctx.stat("prepared");
        app::_build_spatial_indices(n);
#ifdef VERIF_MAPPED
        app::_serialize(n, data);
#endif
        app::_export(n, data);
        ctx.stat("exported");
        const auto &graph = n->graph();
        std::size_t points = 0;
        const auto edges = graph.edges_view();
        for (auto it = edges.begin(); it != edges.end(); it = edges.next(it)) {
            const auto &edge = graph.get_edge_data(it);
            for (const auto &p : edge.rich_line.line()) { points += p.template get<0>() == p.template get<0>() ? 1 : 0; }
        }
        ctx.stat("points", static_cast<long long>(points));
    }

    void damaged(vh::context &ctx, vh::rng &r, const std::string &format) {
        vh::watchdog dog{120};
        const bool degrees = format == "osm" or r.chance(0.3);
        const auto m = random_map(r, degrees);
        const auto contents = files_of(m, format);
        for (int k = 0; k < 6; ++k) {
            auto texts = contents;
            if (k > 0) {
                for (auto n = r.chance(0.7) ? 1 : 2; n > 0; --n) { mangle::some(ctx, r, r.pick(texts)); }
            }
            strings words{"map_matching_2", "--prepare", "--format", format, "--output", (ctx.scratch / "out").string(), "--quiet"};
            for (std::size_t i = 0; i < texts.size(); ++i) {
                if (k > 0 and r.chance(0.01)) { continue; }
                const auto path = ctx.scratch / vh::cat("part", i, format == "osm" ? ".osm" : ".txt");
                std::ofstream out{path, std::ios::binary};
                out << texts[i];
                words.push_back("--file");
                words.push_back(path.string());
            }
            std::filesystem::create_directories(ctx.scratch / "out");
            const auto add = [&](const std::string &name, const std::string &value) {
                words.push_back("--" + name);
                words.push_back(value);
            };
            if constexpr (std::same_as<CS, g::cs_cartesian>) {
                if (not degrees) {
                    add("srs", "3857");
                    add("srs-type", "cartesian");
                } else {
                    add("transform-srs", "3857");
                }
            } else if constexpr (std::same_as<CS, g::cs_spherical_equatorial>) {
                add(format == "osm" ? "transform-srs-type" : "srs-type", "spherical-equatorial");
            }
            add("simplify", r.pick(strings{"none", "all", "osm-aware"}));
            if (r.chance(0.4)) { add("remove-unconnected", "on"); }
            if (r.chance(0.4)) { add("remove-duplicate-nodes", "on"); }
            if (r.chance(0.4)) { add("remove-duplicate-edges", "on"); }
            if (r.chance(0.5)) { add("export-nodes-csv-file", "nodes.csv"); }
            if (r.chance(0.5)) { add("export-edges-csv-file", "edges.csv"); }
            if (r.chance(0.5)) { add("export-network-osm-file", r.chance(0.5) ? "map.osm" : "map.osm.pbf"); }
            if (r.chance(0.3)) { add("osm-profile", "manual"); }
#ifdef VERIF_MAPPED
            add("initial-file-size", std::to_string(r.range(4096, 20000)));
#else
            add("memory-mapping", "off");
#endif
            const auto text = [&] {
                std::string out;
                for (const auto &w : words) { out += w + " "; }
                for (const auto &t : texts) { out += "\n--- file:\n" + mangle::say(t); }
                return out;
            };
            {
                // for crashes
                std::ofstream out{ctx.scratch / "case.txt", std::ios::binary};
                out << text();
            }
            app::prepare_data data;
            mangle::arguments args{words};
            std::string error;
            {
                mangle::silence quiet;
                try {
                    auto all = app::options_prepare(data);
                    po::variables_map vm;
                    if (not app::process(args.count(), args.values(), vm, all, app::MODE::PREPARE)) { throw std::runtime_error{"options: " + quiet.log.str()}; }
                    data.correct(vm);
                    app::set_global_verbose_quiet(data.all.verbose, data.all.quiet);
                    for (const auto &file : data.network.files) {
                        if (not std::filesystem::exists(file)) { throw std::runtime_error{"input file did not exist"}; }
                    }
                    prepare(ctx, data);
                } catch (const std::exception &e) {
                    error = vh::cat(typeid(e).name(), ": ", e.what());
                }
            }
            ctx.require(k > 0 or error.empty(), "undamaged-refused", [&] { return error + "\n" + text(); });
            ctx.require(not error.starts_with("options:"), "undamaged-refused", [&] { return error + "\n" + text(); });
            ctx.stat(k == 0 ? "undamaged" : error.empty() ? "damaged_used" : "damaged_refused");
            if (k > 0) {
                std::string all;
                for (const auto &t : texts) { all += t; }
                ctx.observe(vh::hash_str(all));
            }
            if (ctx.index < 8 and k == 1) { ctx.sample(text() + "\n" + error); }
            std::error_code ignored;
            std::filesystem::remove_all(ctx.scratch / "out", ignored);
            quarantine::release();
        }
        ctx.stat(format);
    }

}


int main(int argc, char **argv) {
    map_matching_2::geometry::disable_cache();
    const auto of = [](const std::string &format) { return [format](vh::context &ctx, vh::rng &r) { damaged(ctx, r, format); }; };
    return vh::run(argc, argv, {
            {"arc_node", of("arc-node"), 400, 20000},
            {"melbourne", of("melbourne"), 400, 20000},
            {"giscup", of("giscup"), 400, 20000},
            {"seattle", of("seattle"), 400, 20000},
            {"osm", of("osm"), 400, 20000},
    });
}
