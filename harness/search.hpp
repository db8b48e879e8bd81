// Monitor: searching a network for nodes and edges finds exactly the matching ones, for every index kind.
#ifndef VERIF_SEARCH_HPP
#define VERIF_SEARCH_HPP

#include "mapped_plan.hpp"

#include "geometry/algorithm/buffer.hpp"

namespace search {

    namespace bg = boost::geometry;
    namespace bgi = boost::geometry::index;
    namespace mg = map_matching_2::geometry;
    using net::xy;

    template<typename CS>
    constexpr bool plane = std::same_as<CS, MM2_CARTESIAN>;

    template<typename CS, typename Types, typename BuildTypes>
    using network_type = MM2_NETWORK(MM2_GRAPH_HELPER(CS, Types, MM2_TAG_HELPER(Types)), MM2_INDEX_HELPER(CS, Types, BuildTypes));

    // exact for coordinates that are small integers
    inline int side(const xy &a, const xy &b, const xy &p) {
        const double c = (b.first - a.first) * (p.second - a.second) - (b.second - a.second) * (p.first - a.first);
        return c > 0 ? 1 : c < 0 ? -1 : 0;
    }

    inline bool within(const xy &a, const xy &b, const xy &p) {
        return std::min(a.first, b.first) <= p.first and p.first <= std::max(a.first, b.first) and
                std::min(a.second, b.second) <= p.second and p.second <= std::max(a.second, b.second);
    }

    inline bool cross(const xy &a, const xy &b, const xy &c, const xy &d) {
        const int s1 = side(a, b, c), s2 = side(a, b, d), s3 = side(c, d, a), s4 = side(c, d, b);
        if (s1 * s2 < 0 and s3 * s4 < 0) {
            return true;
        }
        return (s1 == 0 and within(a, b, c)) or (s2 == 0 and within(a, b, d)) or (s3 == 0 and within(c, d, a)) or
                (s4 == 0 and within(c, d, b));
    }

    inline double point_segment(const xy &p, const xy &a, const xy &b) {
        const double dx = b.first - a.first, dy = b.second - a.second, l2 = dx * dx + dy * dy;
        const double t = l2 > 0 ? std::clamp(((p.first - a.first) * dx + (p.second - a.second) * dy) / l2, 0.0, 1.0) : 0.0;
        return net::dist(p, {a.first + t * dx, a.second + t * dy});
    }

    template<typename Network, typename CS>
    struct oracle {
        using point_type = typename Network::point_type;
        using segment_type = typename Network::segment_type;
        using vertex = typename Network::vertex_descriptor;
        using edge = typename Network::edge_descriptor;

        struct seg {
            edge e;
            std::size_t i;
            xy a, b;
        };

        struct node {
            vertex v;
            xy p;
        };

        std::vector<seg> segs;
        std::vector<node> nodes;

        // the library measures the sphere in radians
        static constexpr double unit_length = std::same_as<CS, MM2_SPHERICAL_EQUATORIAL> ? 6371000.0 : 1.0;

        explicit oracle(const Network &n) {
            const auto vv = n.graph().vertices_view();
            for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
                nodes.push_back({it, net::to_xy(n.graph().get_vertex_data(it).point)});
            }
            const auto ev = n.graph().edges_view();
            for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
                const auto line = net::to_xys(n.graph().get_edge_data(it).rich_line.line());
                for (std::size_t i = 1; i < line.size(); ++i) {
                    segs.push_back({it, i - 1, line[i - 1], line[i]});
                }
            }
        }

        static double distance(const xy &p, const xy &a, const xy &b) {
            if constexpr (plane<CS>) {
                return point_segment(p, a, b);
            } else {
                const point_type q{p.first, p.second}, pa{a.first, a.second}, pb{b.first, b.second};
                return unit_length * bg::distance(q, segment_type{pa, pb});
            }
        }

        static double distance(const xy &p, const xy &a) {
            if constexpr (plane<CS>) {
                return net::dist(p, a);
            } else {
                return unit_length * bg::distance(point_type{p.first, p.second}, point_type{a.first, a.second});
            }
        }
    };

    template<typename Network, typename CS>
    void check(vh::context &ctx, vh::rng &r, const Network &n, const net::plan &p, const std::function<xy()> &position,
            double unit, const std::string &kind) {
        using o_type = oracle<Network, CS>;
        using point_type = typename Network::point_type;
        using segment_type = typename Network::segment_type;
        using box_type = bg::model::box<point_type>;
        const o_type o{n};
        const auto say = [&] { return vh::cat(kind, " ", p.str()); };
        const auto P = [](const xy &q) { return point_type{q.first, q.second}; };
        using seg_key = std::tuple<typename o_type::edge, std::size_t, xy, xy>;
        using node_key = std::pair<typename o_type::vertex, xy>;
        const auto seg_keys = [&](const auto &res) {
            std::multiset<seg_key> s;
            for (const auto &v : res) {
                s.insert({v.second.first, v.second.second, net::to_xy(v.first.first), net::to_xy(v.first.second)});
            }
            return s;
        };
        const auto node_keys = [&](const auto &res) {
            std::multiset<node_key> s;
            for (const auto &v : res) {
                s.insert({v.second, net::to_xy(v.first)});
            }
            return s;
        };
        const auto expected_segs = [&](const auto &pred) {
            std::multiset<seg_key> s;
            for (const auto &g : o.segs) {
                if (pred(g)) {
                    s.insert({g.e, g.i, g.a, g.b});
                }
            }
            return s;
        };

        // everything
        const box_type all{P({-1e9, -1e9}), P({1e9, 1e9})}, world{P({-180, -90}), P({180, 90})};
        const box_type &whole = plane<CS> ? all : world;
        ctx.require(seg_keys(n.query_segments(bgi::intersects(whole))) == expected_segs([](const auto &) { return true; }),
                "index-segments", say);
        std::multiset<node_key> every;
        for (const auto &v : o.nodes) {
            every.insert({v.v, v.p});
        }
        ctx.require(node_keys(n.query_points(bgi::intersects(whole))) == every, "index-nodes", say);
        ctx.stat("segments_indexed", static_cast<long>(o.segs.size()));
        ctx.stat("nodes_indexed", static_cast<long>(o.nodes.size()));
        if (not o.nodes.empty()) {
            xy lo = o.nodes[0].p, hi = lo;
            for (const auto &v : o.nodes) {
                lo = {std::min(lo.first, v.p.first), std::min(lo.second, v.p.second)};
                hi = {std::max(hi.first, v.p.first), std::max(hi.second, v.p.second)};
            }
            const auto b = n.bounds();
            const auto bl = net::to_xy(b.min_corner()), bh = net::to_xy(b.max_corner());
            ctx.require(vh::close(bl.first, lo.first, 0, 1e-7) and vh::close(bl.second, lo.second, 0, 1e-7) and
                            vh::close(bh.first, hi.first, 0, 1e-7) and vh::close(bh.second, hi.second, 0, 1e-7),
                    "bounds", [&] { return vh::cat(bl.first, ",", bl.second, " ", bh.first, ",", bh.second, " for ", say()); });
        } else {
            ctx.stat("networks_empty");
        }
        if (o.segs.empty()) {
            ctx.stat("networks_without_segments");
        }

        // by id
        std::set<std::uint64_t> node_ids{7}, edge_ids{0};
        const auto &g = n.graph();
        for (const auto &v : o.nodes) {
            node_ids.insert(g.get_vertex_data(v.v).id);
        }
        const auto ev = g.edges_view();
        std::multimap<std::uint64_t, typename o_type::edge> by_id;
        for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
            edge_ids.insert(g.get_edge_data(it).id);
            by_id.emplace(g.get_edge_data(it).id, it);
        }
        for (const auto id : node_ids) {
            std::multiset<typename o_type::vertex> want, got;
            for (const auto &v : o.nodes) {
                if (g.get_vertex_data(v.v).id == id) {
                    want.insert(v.v);
                }
            }
            for (const auto &v : n.find_node(id)) {
                got.insert(v);
            }
            ctx.require(want == got, "find-node", say);
        }
        for (const auto id : edge_ids) {
            std::multiset<typename o_type::edge> want, got;
            for (auto [a, b] = by_id.equal_range(id); a != b; ++a) {
                want.insert(a->second);
            }
            for (const auto &e : n.find_edge(id)) {
                got.insert(e);
            }
            ctx.require(want == got, "find-edge", say);
        }
        ctx.stat("ids_looked_up", static_cast<long>(node_ids.size() + edge_ids.size()));

        for (int k = 0; k < 6; ++k) {
            const xy q = position();
            const auto where = [&] { return vh::cat(std::setprecision(17), "(", q.first, ",", q.second, ") ", say()); };

            // exact positions
            const auto [in_nodes, v] = n.point_in_nodes(P(q));
            const bool want_node = std::any_of(o.nodes.begin(), o.nodes.end(), [&](const auto &x) { return x.p == q; });
            ctx.require(in_nodes == want_node and (not in_nodes or net::to_xy(g.get_vertex_data(v).point) == q), "point-in-nodes", where);
            const auto [in_edges, entry] = n.point_in_edges(P(q));
            const bool want_edge = std::any_of(o.segs.begin(), o.segs.end(), [&](const auto &s) { return s.a == q or s.b == q; });
            ctx.require(in_edges == want_edge, "point-in-edges", [&] { return vh::cat(want_edge, " expected at ", where()); });
            if (in_edges) {
                const auto line = net::to_xys(g.get_edge_data(entry.first).rich_line.line());
                ctx.require(entry.second + 1 < line.size() and (line[entry.second] == q or line[entry.second + 1] == q),
                        "point-in-edges-entry", where);
            }
            ctx.stat(want_node ? "positions_on_nodes" : want_edge ? "positions_on_edges" : "positions_elsewhere");

            // nearest
            const auto count = static_cast<std::size_t>(r.chance(0.2) ? r.range(20, 60) : r.range(1, 8));
            const auto ordered = [&](auto &&list, auto &&d) {
                std::vector<double> out;
                for (const auto &x : list) {
                    out.push_back(d(x));
                }
                std::sort(out.begin(), out.end());
                return out;
            };
            const auto compare = [&](std::vector<double> got, std::vector<double> want, const char *key) {
                const std::size_t expected = std::min(count, want.size());
                ctx.require(got.size() == expected, key, [&] { return vh::cat(got.size(), " of ", expected, " found, ", where()); });
                for (std::size_t i = 0; i < std::min(got.size(), expected); ++i) {
                    // distances of the curved systems are only bounds inside the tree
                    const bool same = vh::close(got[i], want[i], plane<CS> ? 1e-9 : 2e-3, plane<CS> ? 1e-9 : 0.2);
                    ctx.require(same, key, [&] { return vh::cat("nearest ", i, " of ", count, " at ", got[i], " instead of ", want[i], ", ", where()); });
                }
                ctx.stat("nearest_compared", static_cast<long>(expected));
            };
            const auto ns = n.query_segments(bgi::nearest(P(q), static_cast<unsigned>(count)));
            const auto np = n.query_points(bgi::nearest(P(q), static_cast<unsigned>(count)));
            compare(ordered(ns, [&](const auto &s) { return o.distance(q, net::to_xy(s.first.first), net::to_xy(s.first.second)); }),
                    ordered(o.segs, [&](const auto &s) { return o.distance(q, s.a, s.b); }), "nearest-segments");
            compare(ordered(np, [&](const auto &s) { return o.distance(q, net::to_xy(s.first)); }),
                    ordered(o.nodes, [&](const auto &s) { return o.distance(q, s.p); }), "nearest-nodes");
            const auto sk = seg_keys(ns);
            const auto full = expected_segs([](const auto &) { return true; });
            ctx.require(std::set<seg_key>{sk.begin(), sk.end()}.size() == sk.size() and
                    std::includes(full.begin(), full.end(), sk.begin(), sk.end()), "nearest-segments-extra", where);
            const auto nk = node_keys(np);
            ctx.require(std::set<node_key>{nk.begin(), nk.end()}.size() == nk.size() and
                    std::includes(every.begin(), every.end(), nk.begin(), nk.end()), "nearest-nodes-extra", where);

            // box
            const double w = unit * static_cast<double>(r.range(0, 4)), h = unit * static_cast<double>(r.range(0, 4));
            const box_type box{P({q.first - w, q.second - h}), P({q.first + w, q.second + h})};
            const auto in_box = [&](const xy &c) {
                return q.first - w <= c.first and c.first <= q.first + w and q.second - h <= c.second and c.second <= q.second + h;
            };
            std::multiset<node_key> nodes_in_box;
            for (const auto &x : o.nodes) {
                if (in_box(x.p)) {
                    nodes_in_box.insert({x.v, x.p});
                }
            }
            const auto got_nodes = node_keys(n.query_points(bgi::intersects(box)));
            ctx.require(got_nodes == nodes_in_box, "box-nodes", [&] { return vh::cat(w, "x", h, " ", got_nodes.size(), " of ", nodes_in_box.size(), " ", where()); });
            const auto got_segs = n.query_segments(bgi::intersects(box));
            const auto want_segs = expected_segs([&](const auto &s) {
                if constexpr (plane<CS>) {
                    const xy c1{q.first - w, q.second - h}, c2{q.first + w, q.second - h}, c3{q.first + w, q.second + h}, c4{q.first - w, q.second + h};
                    return in_box(s.a) or in_box(s.b) or cross(s.a, s.b, c1, c2) or cross(s.a, s.b, c2, c3) or
                            cross(s.a, s.b, c3, c4) or cross(s.a, s.b, c4, c1);
                } else {
                    return bg::intersects(segment_type{P(s.a), P(s.b)}, box);
                }
            });
            ctx.require(seg_keys(got_segs) == want_segs, "box-segments", [&] { return vh::cat(w, "x", h, " ", got_segs.size(), " of ", want_segs.size(), " ", where()); });
            ctx.stat("box_segments", static_cast<long>(want_segs.size()));
            ctx.stat("box_nodes", static_cast<long>(nodes_in_box.size()));

            // the other forms of the same search
            std::vector<xy> points;
            for (const auto &s : got_segs) {
                points.push_back(net::to_xy(s.first.first));
                points.push_back(net::to_xy(s.first.second));
            }
            ctx.require(net::to_xys(n.query_segments_points(bgi::intersects(box))) == points, "segment-points", where);
            std::set<typename o_type::edge> want_unique, got_unique;
            for (const auto &s : want_segs) {
                want_unique.insert(std::get<0>(s));
            }
            for (const auto &e : n.query_segments_unique(bgi::intersects(box))) {
                ctx.require(got_unique.insert(e).second, "unique-edges", where);
            }
            ctx.require(got_unique == want_unique, "unique-edges", where);
            // appending search
            auto appended = ns;
            n.query_segments(bgi::intersects(box), appended);
            ctx.require(appended.size() == ns.size() + got_segs.size(), "append", where);

            // crossing a segment
            const xy q2 = position();
            if (q != q2) {
                const segment_type s{P(q), P(q2)};
                const auto want = expected_segs([&](const auto &x) {
                    if constexpr (plane<CS>) {
                        return cross(x.a, x.b, q, q2);
                    } else {
                        return bg::intersects(segment_type{P(x.a), P(x.b)}, s);
                    }
                });
                if (plane<CS> or std::none_of(o.segs.begin(), o.segs.end(), [](const auto &x) { return x.a == x.b; })) {
                    ctx.require(seg_keys(n.query_segments(bgi::intersects(s))) == want, "crossing-segments", where);
                    ctx.stat("crossing_segments", static_cast<long>(want.size()));
                }
            }

            // a radius: the box around it holds everything within and the filtered rest is exact
            const double radius = (plane<CS> ? 1.0 : 70.0) * r.real(0.5, 6);
            std::multiset<seg_key> near;
            for (const auto &x : n.query_segments(bgi::intersects(mg::buffer_box(P(q), radius)))) {
                if (o.distance(q, net::to_xy(x.first.first), net::to_xy(x.first.second)) <= radius) {
                    near.insert({x.second.first, x.second.second, net::to_xy(x.first.first), net::to_xy(x.first.second)});
                }
            }
            const double margin = plane<CS> ? 1e-9 : 0.02;
            const auto must = expected_segs([&](const auto &x) { return o.distance(q, x.a, x.b) <= radius * (1 - margin); });
            const auto may = expected_segs([&](const auto &x) { return o.distance(q, x.a, x.b) <= radius; });
            ctx.require(std::includes(near.begin(), near.end(), must.begin(), must.end()) and
                            std::includes(may.begin(), may.end(), near.begin(), near.end()),
                    "radius-segments", [&] { return vh::cat("radius ", radius, ": ", near.size(), " found, ", must.size(), " to ", may.size(), " expected ", where()); });
            ctx.stat("radius_segments", static_cast<long>(must.size()));
        }
    }

    template<typename CS>
    void scenario(vh::context &ctx, vh::rng &r) {
        net::plan_options o;
        o.min_nodes = r.chance(0.05) ? 0 : 2;
        o.max_nodes = ctx.thorough or r.chance(0.2) ? 40 : 12;
        if (o.min_nodes == 0) {
            o.max_nodes = 0;
        }
        o.grid = static_cast<int>(r.range(3, 12));
        o.coincident = plane<CS> ? 0.1 : 0.0;
        o.edge_factor = r.chance(0.1) ? 0 : r.real(0.3, 2.5);
        o.edge_id_pool = r.chance(0.3) ? 5 : 0;
        net::plan p = o.max_nodes == 0 ? net::plan{} : net::random_plan(r, o);
        double unit = 1, x0 = 0, y0 = 0;
        if constexpr (not plane<CS>) {
            unit = std::ldexp(1.0, -10);
            x0 = static_cast<double>(r.range(-170, 170));
            y0 = static_cast<double>(r.range(-70, 70));
        } else if (r.chance(0.5)) {
            unit = static_cast<double>(r.range(1, 20));
            x0 = static_cast<double>(r.range(-1000, 1000));
            y0 = static_cast<double>(r.range(-1000, 1000));
        }
        const auto place = [&](xy &q) { q = {x0 + unit * q.first, y0 + unit * q.second}; };
        for (auto &v : p.nodes) {
            place(v.p);
        }
        for (auto &e : p.edges) {
            for (auto &q : e.line) {
                place(q);
            }
        }
        if constexpr (not plane<CS>) {
            // the curved systems are not asked about lines of coinciding points
            std::erase_if(p.edges, [](const auto &e) {
                for (std::size_t i = 1; i < e.line.size(); ++i) {
                    if (e.line[i - 1] == e.line[i]) {
                        return true;
                    }
                }
                return false;
            });
        }
        ctx.observe(p.fingerprint());
        const std::function<xy()> position = [&]() -> xy {
            if (r.chance(0.2) and not p.nodes.empty()) {
                return r.pick(p.nodes).p;
            }
            if (r.chance(0.3) and not p.edges.empty()) {
                return r.pick(r.pick(p.edges).line);
            }
            xy q{static_cast<double>(r.range(-1, o.grid + 1)), static_cast<double>(r.range(-1, o.grid + 1))};
            place(q);
            return q;
        };
        const int kind = static_cast<int>(r.range(0, 3));
        if (kind == 0) {
            auto n = net::bake<network_type<CS, mapped::memory, mapped::memory>>(
                    net::build<mapped::import_network<CS, mapped::memory>>(p));
            n.build_spatial_indices();
            // the index still belongs to a moved network
            auto moved = std::move(n);
            check<decltype(moved), CS>(ctx, r, moved, p, position, unit, "memory");
            ctx.stat("networks_in_memory");
        } else if (kind == 1 or not plane<CS>) {
            auto import = mapped::make_import<CS, mapped::file>(ctx.scratch, r);
            mapped::import<CS, mapped::file>(import, p, nullptr);
            {
                auto n = mapped::make_network<CS, mapped::file>(ctx.scratch, r, true);
                n.graph_helper().from_adjacency_list(import.graph_helper(), import.tag_helper());
                n.build_spatial_indices();
                check<decltype(n), CS>(ctx, r, n, p, position, unit, "file");
            }
            const auto opened = mapped::open_network<CS>(ctx.scratch);
            check<std::decay_t<decltype(opened)>, CS>(ctx, r, opened, p, position, unit, "opened file");
            ctx.stat("networks_in_files");
        } else if constexpr (plane<CS>) {
            // index in a file, built from memory
            using N = network_type<CS, mapped::file, mapped::memory>;
            using graph_helper = typename N::graph_helper_type;
            using tag_helper = typename graph_helper::tag_helper_type;
            using index_helper = typename N::index_helper_type;
            N n{graph_helper{mapped::storage<typename graph_helper::graph_storage_type, mapped::file>(ctx.scratch, "graph.bin", r, false),
                        tag_helper{mapped::storage<typename tag_helper::tag_storage_type, mapped::file>(ctx.scratch, "tags.bin", r, false)}},
                    index_helper{mapped::storage<typename index_helper::index_storage_type, mapped::file>(ctx.scratch, "index.bin", r, false)}};
            const auto import = net::build<mapped::import_network<CS, mapped::memory>>(p);
            n.graph_helper().from_adjacency_list(import.graph_helper(), import.tag_helper());
            n.build_spatial_indices();
            check<N, CS>(ctx, r, n, p, position, unit, "file from memory");
            ctx.stat("networks_in_files_from_memory");
        }
    }

}

#endif
