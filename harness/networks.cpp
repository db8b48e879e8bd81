// Monitor: importing the simple map formats gives exactly the nodes and edges of their files.
#include "common/vh.hpp"

#include "types/geometry/network/network_import.hpp"
#include "geometry/network/traits/network.hpp"

#include "types/io/network/arc_node_importer.hpp"
#include "types/io/network/giscup_importer.hpp"
#include "types/io/network/melbourne_importer.hpp"
#include "types/io/network/seattle_importer.hpp"

#include <algorithm>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <iomanip>
#include <functional>
#include <map>
#include <set>
#include <sstream>

namespace {

    namespace g = map_matching_2::geometry;
    namespace io = map_matching_2::io;

    struct xy {
        double x{}, y{};
        auto operator<=>(const xy &) const = default;
    };
    using line = std::vector<xy>;

    struct node {
        std::uint64_t id;
        xy p;
    };
    struct edge {
        std::uint64_t id;
        std::size_t s, t;
        line points; // with both ends
    };
    struct content {
        std::vector<node> nodes;
        std::vector<edge> edges;
    };

    template<typename CS>
    using helper = MM2_GRAPH_HELPER_IMPORT(CS, MM2_MEMORY_TYPES, MM2_IMPORT_TAG_HELPER(MM2_MEMORY_TYPES));

    std::string say(const content &c) {
        std::ostringstream o;
        o << std::setprecision(17);
        for (const auto &n : c.nodes) { o << "\n  node " << n.id << " (" << n.p.x << " " << n.p.y << ")"; }
        for (const auto &e : c.edges) {
            o << "\n  edge " << e.id << " " << e.s << ">" << e.t;
            for (const auto &p : e.points) { o << " (" << p.x << " " << p.y << ")"; }
        }
        return o.str();
    }

    template<typename Helper>
    content read_back(const Helper &h) {
        content out;
        const auto &graph = h.graph();
        std::map<std::size_t, std::size_t> at;
        const auto vertices = graph.vertices_view();
        for (auto it = vertices.begin(); it != vertices.end(); it = vertices.next(it)) {
            at[graph.vertex_index(it)] = out.nodes.size();
            const auto &n = graph.get_vertex_data(it);
            out.nodes.push_back({n.id, {n.point.template get<0>(), n.point.template get<1>()}});
        }
        const auto edges = graph.edges_view();
        for (auto it = edges.begin(); it != edges.end(); it = edges.next(it)) {
            const auto &e = graph.get_edge_data(it);
            edge read{e.id, at.at(graph.vertex_index(graph.source(it))), at.at(graph.vertex_index(graph.target(it))), {}};
            for (const auto &p : e.rich_line.line()) { read.points.push_back({p.template get<0>(), p.template get<1>()}); }
            out.edges.push_back(std::move(read));
        }
        return out;
    }

    // how positions in files become positions of the network
    struct systems {
        g::srs_transform transform;
        int kind; // 0 as they are, 1 degrees to web mercator, 2 back
        bool degrees;
    };

    xy moved(const systems &s, const xy &p) {
        constexpr double a = 6378137;
        switch (s.kind) {
            case 1: return {a * p.x * M_PI / 180, a * std::asinh(std::tan(p.y * M_PI / 180))};
            case 2: return {p.x / a * 180 / M_PI, std::atan(std::sinh(p.y / a)) * 180 / M_PI};
            default: return p;
        }
    }

    bool same_place(const systems &s, const xy &a, const xy &b) {
        const double tolerance = s.kind == 0 ? 0 : s.degrees ? 1e-6 : 1e-10;
        return std::abs(a.x - b.x) <= tolerance and std::abs(a.y - b.y) <= tolerance;
    }

    bool same_line(const systems &s, const line &a, const line &b) {
        return a.size() == b.size() and std::equal(a.begin(), a.end(), b.begin(), [&](const xy &p, const xy &q) { return same_place(s, p, q); });
    }

    xy random_at(vh::rng &r, const systems &s) {
        switch (r.range(0, 3)) {
            case 0: return {static_cast<double>(r.range(-5, 5)), static_cast<double>(r.range(-5, 5))};
            case 1: return {static_cast<double>(r.range(-50, 50)) / 8, static_cast<double>(r.range(-50, 50)) / 8};
            default: return s.degrees ? xy{r.real(-179, 179), r.real(-84, 84)} : xy{r.real(-1e6, 1e6), r.real(-1e6, 1e6)};
        }
    }

    std::string number(vh::rng &r, double v) {
        char out[64];
        if (v == std::floor(v) and r.chance(0.6)) {
            std::snprintf(out, sizeof out, r.chance(0.7) ? "%.0f" : "%.3f", v);
        } else {
            std::snprintf(out, sizeof out, r.chance(0.8) ? "%.17g" : "%.17e", v);
        }
        return out;
    }

    std::uint64_t fresh(vh::rng &r, std::set<std::uint64_t> &used) {
        for (;;) {
            const auto id = static_cast<std::uint64_t>(r.chance(0.6) ? r.range(0, 200) : r.chance(0.5) ? r.range(880000000000ll, 890000000000ll) : static_cast<std::int64_t>(r.next() >> 1));
            if (used.insert(id).second) { return id; }
        }
    }

    struct job {
        vh::context &ctx;
        vh::rng &r;
        systems s;
        std::string end;
        std::vector<std::string> files;
        std::string text;
        content expected;

        void write(const std::string &content) {
            files.push_back(vh::cat(ctx.scratch.string(), "/", files.size(), ".txt"));
            std::ofstream{files.back(), std::ios::binary} << content;
            text += vh::cat("\n--- ", files.size() - 1, "\n", content);
        }

        // what a file without its last line end states is the same
        std::string last_line(std::string t) {
            if (not t.empty() and r.chance(0.15)) {
                t.resize(t.size() - end.size());
                ctx.stat("without_last_line_end");
            }
            return t;
        }

        content random_network(std::set<std::uint64_t> &node_ids, std::set<std::uint64_t> &edge_ids) {
            content c;
            for (auto n = r.range(0, 9); n > 0; --n) {
                c.nodes.push_back({fresh(r, node_ids), not c.nodes.empty() and r.chance(0.1) ? c.nodes[0].p : random_at(r, s)});
            }
            if (not c.nodes.empty()) {
                for (auto n = r.range(0, 14); n > 0; --n) {
                    const auto a = static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(c.nodes.size()) - 1));
                    const auto b = r.chance(0.1) ? a : static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(c.nodes.size()) - 1));
                    edge e{fresh(r, edge_ids), a, b, {c.nodes[a].p}};
                    for (auto k = r.chance(0.6) ? r.range(0, 6) : 0; k > 0; --k) { e.points.push_back(r.chance(0.1) ? e.points.back() : random_at(r, s)); }
                    e.points.push_back(c.nodes[b].p);
                    if (a == b) { ctx.stat("loops"); }
                    c.edges.push_back(std::move(e));
                }
            }
            return c;
        }

        void expect(const content &c) {
            const auto offset = expected.nodes.size();
            for (const auto &n : c.nodes) { expected.nodes.push_back({n.id, moved(s, n.p)}); }
            for (const auto &e : c.edges) {
                expected.edges.push_back({e.id, e.s + offset, e.t + offset, {}});
                for (const auto &p : e.points) { expected.edges.back().points.push_back(moved(s, p)); }
            }
            ctx.stat("nodes", c.nodes.size());
            ctx.stat("edges", c.edges.size());
        }

        template<template<typename> typename Importer, typename CS>
        content import() {
            helper<CS> h;
            Importer<helper<CS>> importer{files, h, g::create_point_reprojector(s.transform)};
            importer.read();
            return read_back(h);
        }

        template<template<typename> typename Importer>
        void check(bool ordered) {
            content read;
            try {
                switch (s.transform.transform_srs_type) {
                    case g::SRS::CS_GEOGRAPHIC: read = import<Importer, g::cs_geographic>(); break;
                    case g::SRS::CS_SPHERICAL_EQUATORIAL: read = import<Importer, g::cs_spherical_equatorial>(); break;
                    default: read = import<Importer, g::cs_cartesian>(); break;
                }
            } catch (const std::exception &e) {
                ctx.fail("import fails", vh::cat(e.what(), text));
            }
            for (const auto &f : files) { std::filesystem::remove(f); }
            const auto both = [&] { return vh::cat("kind ", s.kind, text, "\nexpected:", say(expected), "\nread:", say(read)); };
            ctx.observe(vh::hash_str(text));
            ctx.stat("file_sets");

            // nodes by id (they are in the order of the files unless nodes are only given by edges)
            ctx.require(read.nodes.size() == expected.nodes.size(), "number of nodes", both);
            std::vector<std::size_t> to(read.nodes.size());
            std::multimap<std::uint64_t, std::size_t> of;
            for (std::size_t i = 0; i < expected.nodes.size(); ++i) { of.emplace(expected.nodes[i].id, i); }
            for (std::size_t i = 0; i < read.nodes.size(); ++i) {
                if (ordered) {
                    to[i] = i;
                } else {
                    const auto it = of.find(read.nodes[i].id);
                    ctx.require(it != of.end(), "ids of nodes", both);
                    to[i] = it->second;
                    of.erase(it);
                }
                ctx.require(read.nodes[i].id == expected.nodes[to[i]].id, "ids of nodes", both);
                ctx.require(same_place(s, read.nodes[i].p, expected.nodes[to[i]].p), "positions of nodes", both);
            }
            // edges as a multiset
            ctx.require(read.edges.size() == expected.edges.size(), "number of edges", both);
            std::vector<bool> used(expected.edges.size());
            for (const auto &e : read.edges) {
                bool found = false;
                for (std::size_t i = 0; i < expected.edges.size() and not found; ++i) {
                    const auto &f = expected.edges[i];
                    if (not used[i] and e.id == f.id and to[e.s] == f.s and to[e.t] == f.t and same_line(s, e.points, f.points)) { used[i] = found = true; }
                }
                ctx.require(found, "edge that no file states", [&] { return vh::cat("edge ", e.id, " ", e.s, ">", e.t, " ", both()); });
            }
        }
    };

    job random_job(vh::context &ctx, vh::rng &r) {
        using g::SRS;
        const auto make = [&](const char *name, g::srs_transform t, int kind, bool degrees) {
            ctx.stat(name);
            std::string end = "\n";
            if (r.chance(0.25)) {
                end = "\r\n";
                ctx.stat("windows_line_ends");
            }
            return job{ctx, r, {std::move(t), kind, degrees}, std::move(end), {}, {}, {}};
        };
        switch (r.range(0, 6)) {
            case 0: case 1: return make("geographic", {{4326, SRS::CS_GEOGRAPHIC}, 4326, SRS::CS_GEOGRAPHIC}, 0, true);
            case 2: return make("spherical", {{4326, SRS::CS_SPHERICAL_EQUATORIAL}, 4326, SRS::CS_SPHERICAL_EQUATORIAL}, 0, true);
            case 3: return make("plane", {{3857, SRS::CS_CARTESIAN}, 3857, SRS::CS_CARTESIAN}, 0, false);
            case 4: return make("to_geographic", {{3857, SRS::CS_CARTESIAN}, 4326, SRS::CS_GEOGRAPHIC}, 2, false);
            default: return make("to_plane", {{4326, SRS::CS_GEOGRAPHIC}, 3857, SRS::CS_CARTESIAN}, 1, true);
        }
    }

    void arc_node(vh::context &ctx, vh::rng &r) {
        auto j = random_job(ctx, r);
        for (auto sets = r.range(1, 2), i = sets; i > 0; --i) {
            std::set<std::uint64_t> nodes, edges;
            auto c = j.random_network(nodes, edges);
            std::string node_text, arc_text;
            const auto separator = [&] { return std::string{r.pick(std::vector<char>{'\t', ';', ',', '|', ' '})}; };
            for (std::size_t n = 0; n < c.nodes.size(); ++n) {
                c.nodes[n].id = n;
                node_text += number(r, c.nodes[n].p.x) + separator() + number(r, c.nodes[n].p.y);
                if (r.chance(0.1)) { node_text += separator() + "note"; }
                node_text += j.end;
            }
            for (std::size_t n = 0; n < c.edges.size(); ++n) {
                auto &e = c.edges[n];
                e.id = n;
                e.points = {e.points.front(), e.points.back()};
                arc_text += vh::cat(e.s, separator(), e.t, j.end);
            }
            j.write(j.last_line(node_text));
            j.write(j.last_line(arc_text));
            j.expect(c);
            if (sets > 1) { ctx.stat("several_sets"); }
        }
        j.check<io::network::arc_node_importer>(true);
        ctx.stat("arc_node");
    }

    void melbourne(vh::context &ctx, vh::rng &r) {
        auto j = random_job(ctx, r);
        std::set<std::uint64_t> nodes, edges;
        for (auto sets = r.chance(0.2) ? 2 : 1; sets > 0; --sets) {
            auto c = j.random_network(nodes, edges);
            std::string vertex_text = vh::cat(c.nodes.size(), j.end), edge_text = vh::cat(c.edges.size(), j.end, "head", j.end);
            for (const auto &n : c.nodes) {
                vertex_text += vh::cat(n.id, " ", r.range(0, 99), " ", number(r, n.p.x), " ", number(r, n.p.y), j.end);
            }
            for (auto &e : c.edges) {
                e.points = {e.points.front(), e.points.back()};
                edge_text += vh::cat(e.id, " ", c.nodes[e.s].id, " ", c.nodes[e.t].id, r.chance(0.7) ? " 1 2 3" : "", j.end);
            }
            j.write(j.last_line(vertex_text));
            j.write(j.last_line(edge_text));
            j.write("");
            j.expect(c);
        }
        j.check<io::network::melbourne_importer>(true);
        ctx.stat("melbourne");
    }

    void giscup(vh::context &ctx, vh::rng &r) {
        auto j = random_job(ctx, r);
        std::set<std::uint64_t> nodes, edges;
        for (auto sets = r.chance(0.2) ? 2 : 1; sets > 0; --sets) {
            const auto c = j.random_network(nodes, edges);
            std::string node_text, edge_text;
            std::vector<std::string> geometries;
            for (const auto &n : c.nodes) { node_text += vh::cat(n.id, " ", number(r, n.p.y), " ", number(r, n.p.x), j.end); }
            for (const auto &e : c.edges) {
                edge_text += vh::cat(e.id, " ", c.nodes[e.s].id, " ", c.nodes[e.t].id, " 1.5", j.end);
                std::string geometry = vh::cat(e.id, "^", r.pick(std::vector<std::string>{"", "Main Street", "1st Ave, North"}), "^residential^", r.real(0, 100));
                for (const auto &p : e.points) { geometry += "^" + number(r, p.y) + "^" + number(r, p.x); }
                geometries.push_back(geometry + j.end);
            }
            if (r.chance(0.3)) { r.shuffle(geometries); }
            std::string geometry_text;
            for (const auto &l : geometries) { geometry_text += l; }
            j.write(j.last_line(node_text));
            j.write(j.last_line(edge_text));
            j.write(j.last_line(geometry_text));
            j.expect(c);
        }
        j.check<io::network::giscup_importer>(true);
        ctx.stat("giscup");
    }

    void seattle(vh::context &ctx, vh::rng &r) {
        auto j = random_job(ctx, r);
        std::set<std::uint64_t> nodes, edges;
        for (auto sets = r.chance(0.2) ? 2 : 1; sets > 0; --sets) {
            auto c = j.random_network(nodes, edges);
            std::string text = vh::cat("Edge ID\tFrom Node ID\tTo Node ID\tTwo Way\tSpeed (m/s)\tVertex Count\tLINESTRING()", j.end);
            std::set<std::size_t> met;
            const auto roads = c.edges.size();
            for (std::size_t i = 0; i < roads; ++i) {
                const auto e = c.edges[i];
                met.insert({e.s, e.t});
                const bool both = r.chance(0.5);
                text += vh::cat(e.id, "\t", c.nodes[e.s].id, "\t", c.nodes[e.t].id, "\t", both ? 1 : 0, "\t", r.real(1, 40), "\t", e.points.size(), "\t", r.chance(0.1) ? " " : "", "LINESTRING", r.chance(0.3) ? " " : "", "(");
                for (std::size_t k = 0; k < e.points.size(); ++k) { text += (k ? r.chance(0.5) ? ", " : "," : "") + number(r, e.points[k].x) + " " + number(r, e.points[k].y); }
                text += ")" + std::string{r.chance(0.1) ? " " : ""} + j.end;
                if (both) {
                    auto back = e;
                    std::swap(back.s, back.t);
                    std::reverse(back.points.begin(), back.points.end());
                    c.edges.push_back(std::move(back));
                    ctx.stat("two_way");
                }
            }
            // nodes without roads are not in the file
            content stated;
            std::map<std::size_t, std::size_t> at;
            for (const auto m : met) {
                at[m] = stated.nodes.size();
                stated.nodes.push_back(c.nodes[m]);
            }
            for (auto &e : c.edges) { stated.edges.push_back({e.id, at.at(e.s), at.at(e.t), e.points}); }
            j.write(j.last_line(text));
            j.expect(stated);
        }
        j.check<io::network::seattle_importer>(false);
        ctx.stat("seattle");
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {
            {"arc_node", arc_node, 6000, 150000},
            {"melbourne", melbourne, 6000, 150000},
            {"giscup", giscup, 6000, 150000},
            {"seattle", seattle, 6000, 150000},
    });
}
