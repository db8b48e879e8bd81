// Random road networks: a plain description ("plan") that can be turned into the repository's networks, and the
// reference computations on it.
#ifndef VERIF_NET_HPP
#define VERIF_NET_HPP

#include <map>
#include <set>
#include <tuple>
#include <vector>

#include "types/geometry/network/network.hpp"
#include "types/geometry/network/network_import.hpp"
#include "geometry/network/traits/network.hpp"

#include "vh.hpp"

namespace net {

    namespace mm = map_matching_2;

    using import_network = MM2_NETWORK_IMPORT(
            MM2_GRAPH_HELPER_IMPORT(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)));
    using network = MM2_NETWORK(
            MM2_GRAPH_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)),
            MM2_INDEX_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_MEMORY_TYPES));

    using xy = std::pair<double, double>;
    using tags = std::vector<std::pair<std::string, std::string>>;

    inline double dist(const xy &a, const xy &b) { return std::hypot(a.first - b.first, a.second - b.second); }

    inline double length(const std::vector<xy> &l) {
        double s = 0;
        for (std::size_t i = 1; i < l.size(); ++i) {
            s += dist(l[i - 1], l[i]);
        }
        return s;
    }

    struct node {
        std::uint64_t id;
        xy p;
    };

    struct edge {
        std::uint64_t id;
        std::size_t s, t;
        std::vector<xy> line;
    };

    struct plan {
        std::vector<node> nodes;
        std::vector<edge> edges;
        std::map<std::uint64_t, tags> node_tags, edge_tags;

        [[nodiscard]] std::string str() const {
            std::ostringstream o;
            o << "nodes";
            for (std::size_t i = 0; i < nodes.size(); ++i) {
                o << " " << i << "#" << nodes[i].id << "(" << nodes[i].p.first << "," << nodes[i].p.second << ")";
            }
            o << " edges";
            for (const auto &e : edges) {
                o << " #" << e.id << ":" << e.s << ">" << e.t;
                if (e.line.size() > 2) {
                    o << "[";
                    for (std::size_t i = 1; i + 1 < e.line.size(); ++i) {
                        o << "(" << e.line[i].first << "," << e.line[i].second << ")";
                    }
                    o << "]";
                }
            }
            return o.str();
        }

        [[nodiscard]] std::uint64_t fingerprint() const { return vh::hash_str(str()); }
    };

    struct plan_options {
        int min_nodes{2}, max_nodes{12};
        int grid{8}; // coordinates on an integer grid of this size
        double scale{1.0};
        double edge_factor{1.8};
        double two_way{0.5};
        double bend{0.4}; // edges with inner points
        double loop{0.05};
        double parallel{0.1};
        double coincident{0.0}; // nodes placed on an existing node
        int edge_id_pool{0}; // 0: a fresh id per road
    };

    inline std::vector<xy> reversed(std::vector<xy> l) {
        std::reverse(l.begin(), l.end());
        return l;
    }

    inline plan random_plan(vh::rng &r, const plan_options &o) {
        plan p;
        const auto n = static_cast<int>(r.range(o.min_nodes, o.max_nodes));
        auto rp = [&] {
            return xy{o.scale * static_cast<double>(r.range(0, o.grid)), o.scale * static_cast<double>(r.range(0, o.grid))};
        };
        std::set<xy> used;
        for (int i = 0; i < n; ++i) {
            xy q;
            if (i > 0 and r.chance(o.coincident)) {
                q = r.pick(p.nodes).p;
            } else {
                int tries = 0;
                do {
                    q = rp();
                } while (used.contains(q) and ++tries < 200);
            }
            used.insert(q);
            p.nodes.push_back({static_cast<std::uint64_t>(100 + i), q});
        }
        const auto m = static_cast<int>(o.edge_factor * n);
        std::uint64_t id = 1;
        auto add = [&](std::size_t s, std::size_t t, std::vector<xy> line, bool both) {
            const auto eid = o.edge_id_pool > 0 ? static_cast<std::uint64_t>(r.range(1, o.edge_id_pool)) : id++;
            p.edges.push_back({eid, s, t, line});
            if (both) {
                p.edges.push_back({eid, t, s, reversed(line)});
            }
        };
        for (int i = 0; i < m; ++i) {
            std::size_t s, t;
            if (not p.edges.empty() and r.chance(o.parallel)) {
                const auto &e = r.pick(p.edges);
                s = e.s;
                t = e.t;
            } else {
                s = static_cast<std::size_t>(r.range(0, n - 1));
                t = r.chance(o.loop) ? s : static_cast<std::size_t>(r.range(0, n - 1));
            }
            std::vector<xy> line{p.nodes[s].p};
            if (s == t or r.chance(o.bend)) {
                const auto k = r.range(s == t ? 2 : 1, 3);
                for (int j = 0; j < k; ++j) {
                    const auto q = rp();
                    if (q != line.back() and (j + 1 < k or q != p.nodes[t].p)) {
                        line.push_back(q);
                    }
                }
            }
            line.push_back(p.nodes[t].p);
            add(s, t, line, r.chance(o.two_way));
        }
        return p;
    }

    // a chain of short road pieces between junctions: the raw shape of an imported street map before simplification
    inline plan random_street_plan(vh::rng &r, int junctions, int grid, double two_way, int id_pool) {
        plan base;
        std::set<xy> used;
        for (int i = 0; i < junctions; ++i) {
            xy q;
            int tries = 0;
            do {
                q = {10.0 * static_cast<double>(r.range(0, grid)), 10.0 * static_cast<double>(r.range(0, grid))};
            } while (used.contains(q) and ++tries < 100);
            used.insert(q);
            base.nodes.push_back({static_cast<std::uint64_t>(1000 + i), q});
        }
        std::uint64_t id = 1;
        const auto roads = static_cast<int>(r.range(junctions / 2, junctions * 2));
        for (int i = 0; i < roads; ++i) {
            const auto s = static_cast<std::size_t>(r.range(0, junctions - 1));
            const auto t = r.chance(0.1) ? s : static_cast<std::size_t>(r.range(0, junctions - 1));
            const auto inner = r.range(s == t ? 2 : 0, 4);
            const bool both = r.chance(two_way);
            std::vector<std::size_t> chain{s};
            for (int k = 0; k < inner; ++k) {
                xy q;
                int tries = 0;
                do {
                    const double f = static_cast<double>(k + 1) / static_cast<double>(inner + 1);
                    q = {base.nodes[s].p.first * (1 - f) + base.nodes[t].p.first * f + static_cast<double>(r.range(-6, 6)),
                         base.nodes[s].p.second * (1 - f) + base.nodes[t].p.second * f + static_cast<double>(r.range(-6, 6))};
                } while (used.contains(q) and ++tries < 100);
                used.insert(q);
                chain.push_back(base.nodes.size());
                base.nodes.push_back({static_cast<std::uint64_t>(1000 + base.nodes.size()), q});
            }
            chain.push_back(t);
            auto eid = id_pool > 0 ? static_cast<std::uint64_t>(r.range(1, id_pool)) : id++;
            for (std::size_t k = 1; k < chain.size(); ++k) {
                if (r.chance(0.15)) {
                    eid = id_pool > 0 ? static_cast<std::uint64_t>(r.range(1, id_pool)) : id++;
                }
                const auto a = chain[k - 1], b = chain[k];
                std::vector<xy> l{base.nodes[a].p, base.nodes[b].p};
                base.edges.push_back({eid, a, b, l});
                if (both) {
                    base.edges.push_back({eid, b, a, reversed(l)});
                }
            }
        }
        return base;
    }

    template<typename P>
    xy to_xy(const P &p) {
        return {boost::geometry::get<0>(p), boost::geometry::get<1>(p)};
    }

    template<typename Line>
    std::vector<xy> to_xys(const Line &line) {
        std::vector<xy> out;
        for (const auto &p : line) {
            out.push_back(to_xy(p));
        }
        return out;
    }

    template<typename LineT>
    LineT to_line(const std::vector<xy> &l) {
        LineT line;
        for (const auto &p : l) {
            line.emplace_back(typename LineT::value_type{p.first, p.second});
        }
        return line;
    }

    template<typename Network>
    void set_tags(Network &n, const plan &p) {
        auto &h = n.tag_helper();
        using vector_type = typename std::decay_t<decltype(h)>::tag_vector_type;
        for (int kind = 0; kind < 2; ++kind) {
            for (const auto &[id, t] : kind ? p.edge_tags : p.node_tags) {
                vector_type v = h.tag_storage().tags();
                for (const auto &[k, val] : t) {
                    v.emplace_back(h.id(k, val));
                }
                if (kind) {
                    h.set_edge_tags(id, std::move(v));
                } else {
                    h.set_node_tags(id, std::move(v));
                }
            }
        }
    }

    template<typename Network = import_network>
    void build_into(Network &n, const plan &p) {
        using traits = mm::geometry::network::network_traits<Network>;
        using node_type = typename traits::vertex_data_type;
        using edge_type = typename traits::edge_data_type;
        using rich_line_type = typename traits::rich_line_type;
        using line_type = typename traits::line_type;
        using point_type = typename traits::point_type;
        std::vector<typename traits::vertex_size_type> idx;
        for (const auto &v : p.nodes) {
            idx.push_back(n.graph_helper().add_vertex_with_index_mapping(
                    node_type{v.id, point_type{v.p.first, v.p.second}}));
        }
        for (const auto &e : p.edges) {
            n.graph_helper().add_edge(idx[e.s], idx[e.t], edge_type{e.id, rich_line_type{to_line<line_type>(e.line)}});
        }
        set_tags(n, p);
    }

    template<typename Network = import_network>
    Network build(const plan &p) {
        Network n;
        build_into(n, p);
        return n;
    }

    template<typename Network = network, typename Import>
    Network bake(const Import &i) {
        Network n;
        n.graph_helper().from_adjacency_list(i.graph_helper(), i.tag_helper());
        return n;
    }

    // plain description of a network as it is observable through its public containers
    struct view {
        struct v_node {
            std::uint64_t id;
            xy p;
        };

        struct v_edge {
            std::uint64_t id;
            std::size_t s, t;
            std::vector<xy> line;
            double len;
        };

        std::vector<v_node> nodes;
        std::vector<v_edge> edges;
    };

    template<typename Network>
    view observe(const Network &n) {
        view out;
        const auto &g = n.graph();
        const auto vv = g.vertices_view();
        std::map<std::size_t, std::size_t> pos;
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
            pos[g.vertex_index(it)] = out.nodes.size();
            const auto &d = g.get_vertex_data(it);
            out.nodes.push_back({d.id, to_xy(d.point)});
        }
        const auto ev = g.edges_view();
        for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
            const auto &d = g.get_edge_data(it);
            const double len = [&]() -> double {
                if constexpr (requires { d.rich_line.length(); }) {
                    // a line whose points all coincide has no valid length
                    return d.rich_line.has_length() ? d.rich_line.length() : 0.0;
                } else {
                    return length(to_xys(d.rich_line.line()));
                }
            }();
            out.edges.push_back({d.id, pos.at(g.vertex_index(g.source(it))), pos.at(g.vertex_index(g.target(it))),
                    to_xys(d.rich_line.line()), len});
        }
        return out;
    }

    inline view observe(const plan &p) {
        view out;
        for (const auto &n : p.nodes) {
            out.nodes.push_back({n.id, n.p});
        }
        for (const auto &e : p.edges) {
            out.edges.push_back({e.id, e.s, e.t, e.line, length(e.line)});
        }
        return out;
    }

    // Bellman-Ford distances from s, infinity when unreachable; limit < 0: unlimited
    inline std::vector<double> distances(const view &v, std::size_t s) {
        std::vector<double> d(v.nodes.size(), std::numeric_limits<double>::infinity());
        d[s] = 0;
        for (bool changed = true; changed;) {
            changed = false;
            for (const auto &e : v.edges) {
                if (d[e.s] + e.len < d[e.t]) {
                    d[e.t] = d[e.s] + e.len;
                    changed = true;
                }
            }
        }
        return d;
    }

    // directed segments with multiplicity
    inline std::map<std::pair<xy, xy>, int> segments(const view &v) {
        std::map<std::pair<xy, xy>, int> out;
        for (const auto &e : v.edges) {
            for (std::size_t i = 1; i < e.line.size(); ++i) {
                ++out[{e.line[i - 1], e.line[i]}];
            }
        }
        return out;
    }

}

#endif
