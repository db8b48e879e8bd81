// Networks whose parts live in memory or in growing files, built from the same description by the same steps.
#ifndef VERIF_MAPPED_HPP
#define VERIF_MAPPED_HPP

#include <osmium/builder/osm_object_builder.hpp>
#include <osmium/memory/buffer.hpp>

#include "flat_map_serialization.hpp"

#include "types/geometry/network/network.hpp"
#include "types/geometry/network/network_import.hpp"
#include "types/io/network/osm_handler.hpp"
#include "types/geometry/reprojector.hpp"

#include "net.hpp"
#include "quarantine.hpp"

namespace mapped {

    namespace mm = map_matching_2;
    namespace st = mm::io::memory_mapped::storage;

    using memory = MM2_MEMORY_TYPES;
    using file = MM2_MMAP_TYPES;

    template<typename CS, typename Types>
    using import_network = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(CS, Types, MM2_IMPORT_TAG_HELPER(Types)));

    template<typename CS, typename Types>
    using network = MM2_NETWORK(MM2_GRAPH_HELPER(CS, Types, MM2_TAG_HELPER(Types)), MM2_INDEX_HELPER(CS, Types, Types));

    template<typename CS, typename Types>
    using opened_network = MM2_NETWORK(MM2_GRAPH_HELPER(CS, Types, MM2_TAG_HELPER(Types)), MM2_INDEX_HELPER_READ_ONLY(CS, Types));

    template<typename CS, typename Types>
    using osm_helper = MM2_OSM_HANDLER_HELPER(CS, Types, MM2_IMPORT_TAG_HELPER(Types));

    inline std::size_t random_size(vh::rng &r) {
        // from files that hardly hold the empty storage up to files that never need to grow
        switch (r.range(0, 3)) {
            case 0:
                return static_cast<std::size_t>(r.range(10, 14)) * 1024;
            case 1:
                return static_cast<std::size_t>(r.range(11000, 60000));
            case 2:
                return std::size_t{1} << r.range(14, 19);
            default:
                return 1024 * 1024;
        }
    }

    template<typename Storage, typename Types>
    Storage storage(const std::filesystem::path &dir, const std::string &name, vh::rng &r, bool keep) {
        if constexpr (std::same_as<Types, file>) {
            return Storage{dir, name, st::DESTROY_AND_CREATE, random_size(r),
                    keep ? st::DO_NOT_DESTROY_ON_CLOSE : st::DESTROY_ON_CLOSE,
                    keep and r.chance(0.6) ? st::SHRINK_ON_CLOSE : st::DO_NOT_SHRINK_ON_CLOSE};
        } else {
            return Storage{};
        }
    }

    template<typename CS, typename Types>
    import_network<CS, Types> make_import(const std::filesystem::path &dir, vh::rng &r) {
        using network_type = import_network<CS, Types>;
        using graph_helper = typename network_type::graph_helper_type;
        using tag_helper = typename graph_helper::tag_helper_type;
        return network_type{graph_helper{
                storage<typename graph_helper::graph_storage_type, Types>(dir, "graph_import.bin", r, false),
                tag_helper{storage<typename tag_helper::tag_storage_type, Types>(dir, "tags_import.bin", r, false)}}};
    }

    template<typename CS, typename Types>
    network<CS, Types> make_network(const std::filesystem::path &dir, vh::rng &r, bool keep) {
        using network_type = network<CS, Types>;
        using graph_helper = typename network_type::graph_helper_type;
        using tag_helper = typename graph_helper::tag_helper_type;
        using index_helper = typename network_type::index_helper_type;
        using build_helper = typename index_helper::index_build_helper_type;
        return network_type{
                graph_helper{storage<typename graph_helper::graph_storage_type, Types>(dir, "graph.bin", r, keep),
                        tag_helper{storage<typename tag_helper::tag_storage_type, Types>(dir, "tags.bin", r, keep)}},
                index_helper{storage<typename index_helper::index_storage_type, Types>(dir, "index.bin", r, keep),
                        build_helper{storage<typename build_helper::index_build_storage_type, Types>(
                                dir, "index_build.bin", r, false)}}};
    }

    template<typename CS>
    opened_network<CS, file> open_network(const std::filesystem::path &dir) {
        using network_type = opened_network<CS, file>;
        using graph_helper = typename network_type::graph_helper_type;
        using tag_helper = typename graph_helper::tag_helper_type;
        using index_helper = typename network_type::index_helper_type;
        return network_type{
                graph_helper{typename graph_helper::graph_storage_type{dir, "graph.bin", st::OPEN_READ_ONLY},
                        tag_helper{typename tag_helper::tag_storage_type{dir, "tags.bin", st::OPEN_READ_ONLY}}},
                index_helper{typename index_helper::index_storage_type{dir, "index.bin", st::OPEN_READ_ONLY}}};
    }

    template<typename CS, typename Types>
    osm_helper<CS, Types> make_osm_helper(const std::filesystem::path &dir, vh::rng &r) {
        using helper = osm_helper<CS, Types>;
        using tag_helper = typename helper::tag_helper_type;
        return helper{storage<typename helper::osm_handler_storage_type, Types>(dir, "osm.bin", r, false),
                tag_helper{storage<typename tag_helper::tag_storage_type, Types>(dir, "osm_tags.bin", r, false)}};
    }

    // everything of a network that can be read, independent of the order of its nodes and edges
    struct contents {
        using node_key = std::tuple<std::uint64_t, double, double>;

        struct edge_key {
            std::uint64_t id;
            node_key s, t;
            std::vector<net::xy> line;
            std::vector<std::pair<std::string, std::string>> tags;
            std::vector<double> measures;

            auto operator<=>(const edge_key &o) const = default;
        };

        std::multiset<std::pair<node_key, std::vector<std::pair<std::string, std::string>>>> nodes;
        std::multiset<edge_key> edges;
        // outgoing edge ids of a node in their order
        std::multiset<std::pair<node_key, std::vector<std::pair<std::uint64_t, node_key>>>> adjacency;

        bool operator==(const contents &o) const {
            return nodes == o.nodes and edges == o.edges and adjacency == o.adjacency;
        }

        [[nodiscard]] std::string difference(const contents &o) const {
            std::ostringstream s;
            s << nodes.size() << "/" << o.nodes.size() << " nodes, " << edges.size() << "/" << o.edges.size() << " edges";
            for (const auto &e : edges) {
                if (edges.count(e) != o.edges.count(e)) {
                    s << ", edge " << e.id << " (" << e.line.size() << " points, " << e.tags.size() << " tags, "
                            << e.measures.size() << " measures) x" << edges.count(e) << " instead of x" << o.edges.count(e);
                    for (const auto &f : o.edges) {
                        if (f.id == e.id and f.s == e.s and f.t == e.t and not edges.count(f)) {
                            s << " but " << f.line.size() << " points, " << f.tags.size() << " tags, "
                                    << f.measures.size() << " measures" << (f.line == e.line ? "" : " LINE")
                                    << (f.tags == e.tags ? "" : " TAGS") << (f.measures == e.measures ? "" : " MEASURES");
                        }
                    }
                    break;
                }
            }
            for (const auto &n : nodes) {
                if (nodes.count(n) != o.nodes.count(n)) {
                    s << ", node " << std::get<0>(n.first) << " (" << n.second.size() << " tags)";
                    break;
                }
            }
            for (const auto &n : adjacency) {
                if (adjacency.count(n) != o.adjacency.count(n)) {
                    s << ", order of edges at node " << std::get<0>(n.first);
                    break;
                }
            }
            return s.str();
        }
    };

    template<typename Network>
    contents read(const Network &n) {
        contents c;
        const auto &g = n.graph();
        const auto &h = n.tag_helper();
        const auto key = [&](const auto &v) -> contents::node_key {
            const auto &d = g.get_vertex_data(v);
            return {d.id, boost::geometry::get<0>(d.point), boost::geometry::get<1>(d.point)};
        };
        const auto tags = [&](const auto &list) {
            std::vector<std::pair<std::string, std::string>> out;
            for (const auto t : list) {
                out.push_back(h.tag(t));
            }
            return out;
        };
        const auto vv = g.vertices_view();
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
            c.nodes.insert({key(it), tags(h.node_tags(g.get_vertex_data(it).id))});
            std::vector<std::pair<std::uint64_t, contents::node_key>> out;
            const auto ov = g.out_edges_view(it);
            for (auto oe = ov.begin(); oe != ov.end(); oe = ov.next(oe)) {
                if constexpr (requires { g.get_edge_data(ov[oe]); }) {
                    out.emplace_back(g.get_edge_data(ov[oe]).id, key(g.target(ov[oe])));
                } else {
                    out.emplace_back(g.get_edge_data(oe).id, key(g.target(oe)));
                }
            }
            c.adjacency.insert({key(it), std::move(out)});
        }
        const auto ev = g.edges_view();
        for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
            const auto &d = g.get_edge_data(it);
            contents::edge_key e{d.id, key(g.source(it)), key(g.target(it)), net::to_xys(d.rich_line.line()),
                    tags(h.edge_tags(d.id)), {}};
            if constexpr (requires { d.rich_line.length(); }) {
                const auto &l = d.rich_line;
                if (l.has_length()) {
                    e.measures.push_back(static_cast<double>(l.length()));
                }
                if (l.has_azimuth()) {
                    e.measures.push_back(static_cast<double>(l.azimuth()));
                }
                if (l.has_directions()) {
                    e.measures.push_back(static_cast<double>(l.directions()));
                }
                for (std::size_t i = 0; i + 1 < l.size(); ++i) {
                    e.measures.push_back(l.has_length(i) ? static_cast<double>(l.length(i)) : -1.0);
                    e.measures.push_back(l.has_azimuth(i) ? static_cast<double>(l.azimuth(i)) : -1000.0);
                }
            }
            c.edges.insert(std::move(e));
        }
        return c;
    }

    // results of searching around a position
    struct found {
        std::multiset<std::tuple<std::uint64_t, std::size_t, net::xy, net::xy>> segments;
        std::multiset<std::tuple<std::uint64_t, net::xy>> points;
        std::vector<double> nearest_segments, nearest_points;

        bool operator==(const found &o) const = default;
    };

    template<typename Network>
    found search(const Network &n, const net::xy &c, double radius, std::size_t k) {
        using point_type = typename Network::point_type;
        const auto &g = n.graph();
        const boost::geometry::model::box<point_type> box{
                point_type{c.first - radius, c.second - radius}, point_type{c.first + radius, c.second + radius}};
        found f;
        for (const auto &s : n.query_segments(boost::geometry::index::intersects(box))) {
            f.segments.insert({g.get_edge_data(s.second.first).id, s.second.second, net::to_xy(s.first.first), net::to_xy(s.first.second)});
        }
        for (const auto &p : n.query_points(boost::geometry::index::intersects(box))) {
            f.points.insert({g.get_vertex_data(p.second).id, net::to_xy(p.first)});
        }
        const point_type q{c.first, c.second};
        for (const auto &s : n.query_segments(boost::geometry::index::nearest(q, k))) {
            f.nearest_segments.push_back(static_cast<double>(boost::geometry::distance(q, s.first)));
        }
        for (const auto &p : n.query_points(boost::geometry::index::nearest(q, k))) {
            f.nearest_points.push_back(static_cast<double>(boost::geometry::distance(q, p.first)));
        }
        std::sort(f.nearest_segments.begin(), f.nearest_segments.end());
        std::sort(f.nearest_points.begin(), f.nearest_points.end());
        return f;
    }

}

#endif
