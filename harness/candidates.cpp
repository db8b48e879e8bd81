// Monitor: candidates of track points against scans over all edges and a replay of the adoption rules.
#include "net.hpp"

#include "types/matching/matcher.hpp"

#include "matching/algorithm/candidate_search.hpp"

namespace {

    namespace bg = boost::geometry;
    namespace mg = map_matching_2::geometry;
    namespace ma = map_matching_2::matching;
    using net::xy;
    using S = ma::settings;

    template<typename CS>
    constexpr bool plane = std::same_as<CS, MM2_CARTESIAN>;

    template<typename CS>
    using import_type = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(CS, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)));
    template<typename CS>
    using network_type = MM2_NETWORK(MM2_GRAPH_HELPER(CS, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)),
            MM2_INDEX_HELPER(CS, MM2_MEMORY_TYPES, MM2_MEMORY_TYPES));

    template<typename CS>
    struct monitor {
        using N = network_type<CS>;
        using traits = ma::network_traits<N>;
        using track_type = typename traits::track_type;
        using line_type = typename mg::rich_line_traits<typename traits::track_rich_line_type>::line_type;
        using candidate_type = typename traits::candidate_type;
        using edge_desc = typename traits::edge_descriptor;
        using point_type = typename traits::point_type;
        using segment_type = typename mg::models<point_type>::segment_type;

        struct edge {
            edge_desc e;
            std::size_t s, t;
            std::vector<xy> line;
            bool has_length;
        };

        using key = std::pair<std::size_t, xy>; // edge number, position

        vh::context &ctx;
        vh::rng &r;
        const N &n;
        std::vector<edge> edges;
        std::map<std::size_t, std::size_t> number; // descriptor -> edge number
        std::set<xy> vertices;

        monitor(vh::context &ctx, vh::rng &r, const N &n) : ctx{ctx}, r{r}, n{n} {
            const auto ev = n.graph().edges_view();
            for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
                const auto &d = n.graph().get_edge_data(it);
                number[it] = edges.size();
                edges.push_back({it, n.graph().source(it), n.graph().target(it), net::to_xys(d.rich_line.line()), d.rich_line.has_length()});
                vertices.insert(edges.back().line.begin(), edges.back().line.end());
            }
        }

        static point_type P(const xy &q) { return point_type{q.first, q.second}; }

        static double dist(const xy &a, const xy &b) {
            if constexpr (plane<CS>) {
                return net::dist(a, b);
            } else {
                return mg::distance(P(a), P(b));
            }
        }

        static double dist(const xy &p, const xy &a, const xy &b) {
            if constexpr (plane<CS>) {
                const double dx = b.first - a.first, dy = b.second - a.second, l2 = dx * dx + dy * dy;
                const double t = l2 > 0 ? std::clamp(((p.first - a.first) * dx + (p.second - a.second) * dy) / l2, 0.0, 1.0) : 0.0;
                return net::dist(p, {a.first + t * dx, a.second + t * dy});
            } else {
                // the library has no distance of a segment without extent
                return a == b ? dist(p, a) : static_cast<double>(mg::distance(P(p), segment_type{P(a), P(b)}));
            }
        }

        static double dist(const xy &p, const std::vector<xy> &l) {
            double d = std::numeric_limits<double>::infinity();
            for (std::size_t i = 1; i < l.size(); ++i) {
                d = std::min(d, dist(p, l[i - 1], l[i]));
            }
            return d;
        }

        static double length(const std::vector<xy> &l) {
            double d = 0;
            for (std::size_t i = 1; i < l.size(); ++i) {
                d += dist(l[i - 1], l[i]);
            }
            return d;
        }

        static double eps(double d) { return plane<CS> ? 1e-9 * (1 + d) : 0.3 + 2e-3 * d; }

        struct bounds {
            std::set<std::size_t> must, may;
            bool decided{true};
        };

        // which edges the search around the i-th point has to and is allowed to return
        bounds own(const std::vector<xy> &track, std::size_t i, const S &s) const {
            const xy &p = track[i];
            std::vector<double> d, segs;
            for (const auto &e : edges) {
                d.push_back(dist(p, e.line));
                for (std::size_t k = 1; k < e.line.size(); ++k) {
                    segs.push_back(dist(p, e.line[k - 1], e.line[k]));
                }
            }
            std::sort(segs.begin(), segs.end());
            const double dk = s.candidate_search == S::CIRCLE or segs.size() <= s.k_nearest ?
                    std::numeric_limits<double>::infinity() : s.k_nearest == 0 ? -1.0 : segs[s.k_nearest - 1];
            bounds base;
            for (std::size_t e = 0; e < edges.size(); ++e) {
                if (edges[e].line.size() >= 2) {
                    if (d[e] < dk - eps(d[e])) {
                        base.must.insert(e);
                    }
                    if (d[e] <= dk + eps(d[e])) {
                        base.may.insert(e);
                    }
                }
            }
            bounds b;
            if (s.candidate_search == S::NEAREST) {
                b = base;
            } else if (s.candidate_search == S::NEXT) {
                b.must = next(base.must, d, false);
                b.may = next(base.may, d, true);
            } else {
                double radius = s.radius;
                if (s.adaptive_radius) {
                    // a track that stands still says nothing about the radius
                    if (i > 0 and track[i - 1] != p) {
                        radius = std::min(radius, dist(track[i - 1], p));
                    }
                    if (i + 1 < track.size() and track[i + 1] != p) {
                        radius = std::min(radius, dist(p, track[i + 1]));
                    }
                    radius = std::max(radius, s.radius_lower_limit);
                }
                for (;;) {
                    radius = std::min(radius, s.radius_upper_limit);
                    b = {};
                    for (const auto e : base.must) {
                        if (edges[e].has_length and d[e] <= radius - eps(radius)) {
                            b.must.insert(e);
                        }
                    }
                    for (const auto e : base.may) {
                        if (edges[e].has_length and d[e] <= radius + eps(radius)) {
                            b.may.insert(e);
                        }
                    }
                    if (not b.must.empty() or radius >= s.radius_upper_limit) {
                        break;
                    }
                    if (not b.may.empty()) {
                        b.decided = false;
                        break;
                    }
                    ctx.stat("radius_doubled");
                    radius *= 2;
                }
            }
            std::erase_if(b.must, [&](std::size_t e) { return not edges[e].has_length; });
            std::erase_if(b.may, [&](std::size_t e) { return not edges[e].has_length; });
            return b;
        }

        // adjacent edges that are at least as near, and edges back
        std::set<std::size_t> next(std::set<std::size_t> base, const std::vector<double> &d, bool may) const {
            auto result = base;
            for (const auto b : base) {
                for (std::size_t e = 0; e < edges.size(); ++e) {
                    if ((edges[e].s == edges[b].s or edges[e].s == edges[b].t) and
                        d[e] <= d[b] + (may ? eps(d[b]) : -eps(d[b]))) {
                        result.insert(e);
                    }
                }
            }
            for (const auto b : std::set<std::size_t>{result}) {
                for (std::size_t e = 0; e < edges.size(); ++e) {
                    if (edges[e].s == edges[b].t and edges[e].t == edges[b].s) {
                        result.insert(e);
                    }
                }
            }
            return result;
        }

        void check(const std::vector<xy> &track, const S &s, const std::vector<candidate_type> &candidates, const track_type &t,
                const std::function<std::string()> &say) {
            ctx.require(candidates.size() == track.size(), "count", say);
            if (candidates.size() != track.size()) {
                return;
            }
            const std::size_t m = track.size();
            std::vector<std::map<key, double>> owned(m), all(m);
            for (std::size_t i = 0; i < m; ++i) {
                const auto &c = candidates[i];
                const auto where = [&] { return vh::cat(std::setprecision(17), "point ", i, " ", say()); };
                ctx.require(c.index == i and c.track == &t, "track-point", where);
                ctx.require(c.next_equal == (i + 1 < m and track[i] == track[i + 1]), "next-equal", where);
                std::set<std::size_t> own_edges, nodes;
                for (std::size_t k = 0; k < c.edges.size(); ++k) {
                    const auto &ce = c.edges[k];
                    const auto e = number.at(ce.edge_desc);
                    const xy q = net::to_xy(ce.projection_point);
                    const auto what = [&] { return vh::cat(std::setprecision(17), "edge ", e, " at (", q.first, ",", q.second, ") ", where()); };
                    ctx.require(k == 0 or c.edges[k - 1].distance <= ce.distance, "order", what);
                    ctx.require(all[i].emplace(key{e, q}, ce.distance).second, "repeated", what);
                    ctx.require(vh::close(ce.distance, dist(track[i], q), 1e-9, plane<CS> ? 1e-9 : 1e-4), "distance",
                            [&] { return vh::cat(ce.distance, " instead of ", dist(track[i], q), " ", what()); });
                    if (not ce.adopted) {
                        owned[i].emplace(key{e, q}, ce.distance);
                        ctx.require(own_edges.insert(e).second, "edge-repeated", what);
                        position(track[i], edges[e], ce, q, what);
                    }
                    nodes.insert(edges[e].s);
                    nodes.insert(edges[e].t);
                }
                // nodes of the edges
                ctx.require(c.nodes.size() == nodes.size(), "nodes", where);
                for (std::size_t k = 0; k < c.nodes.size(); ++k) {
                    const auto &cn = c.nodes[k];
                    ctx.require(nodes.erase(cn.vertex_desc) == 1, "nodes", where);
                    ctx.require(vh::close(cn.distance, dist(track[i], net::to_xy(n.vertex(cn.vertex_desc).point)), 1e-9, plane<CS> ? 1e-9 : 1e-4) and
                            (k == 0 or c.nodes[k - 1].distance <= cn.distance), "node-distance", where);
                }
                // own candidates
                const auto b = own(track, i, s);
                for (const auto e : own_edges) {
                    ctx.require(not b.decided or b.may.contains(e), "extra", [&] { return vh::cat("edge ", e, " ", where()); });
                }
                if (b.decided) {
                    for (const auto e : b.must) {
                        ctx.require(own_edges.contains(e), "missing", [&] {
                            return vh::cat("edge ", e, " in ", dist(track[i], edges[e].line), " m ", where());
                        });
                    }
                    ctx.stat(own_edges.empty() ? "points_without_candidates" : "points_with_candidates");
                    ctx.stat("candidates_compared", static_cast<long>(own_edges.size()));
                } else {
                    ctx.stat("radius_undecided");
                }
            }
            adoption(track, s, owned, all, candidates, say);
        }

        void position(const xy &p, const edge &e, const auto &ce, const xy &q, const auto &what) {
            const double d = dist(p, e.line);
            // positions may snap to a point of the network that is nearly there
            const bool snapped = vertices.contains(q);
            const double tol = plane<CS> ? (snapped ? 1.001e-4 : 1e-8 * (1 + d)) : 0.3 + 2e-3 * d;
            ctx.require(std::fabs(ce.distance - d) <= tol, "closest", [&] { return vh::cat(ce.distance, " instead of ", d, " ", what()); });
            ctx.require(dist(q, e.line) <= (plane<CS> ? (snapped ? 1.001e-4 : 1e-7) : 0.3 + 1e-3 * length(e.line)), "on-edge", what);
            ctx.stat(snapped ? "positions_on_points" : "positions_between");
            auto f = net::to_xys(ce.from->line()), t = net::to_xys(ce.to->line());
            if (f.size() < 2) {
                ctx.require(t == e.line and q == t.front(), "whole-edge-ahead", what);
                ctx.stat("positions_at_start");
                return;
            }
            if (t.size() < 2) {
                ctx.require(f == e.line and q == f.back(), "whole-edge-behind", what);
                ctx.stat("positions_at_end");
                return;
            }
            ctx.require(f.front() == e.line.front() and t.back() == e.line.back(), "ends", what);
            ctx.require(f.back() == q and t.front() == q, "meet", what);
            const double total = length(e.line);
            ctx.require(std::fabs(length(f) + length(t) - total) <= (plane<CS> ? (snapped ? 4e-4 : 1e-6) : 0.3 + 1e-3 * total), "lengths",
                    [&] { return vh::cat(length(f), "+", length(t), " instead of ", total, " ", what()); });
            ctx.require(vh::close(ce.from->length(), length(f), 1e-9, plane<CS> ? 1e-9 : 1e-3) and
                    vh::close(ce.to->length(), length(t), 1e-9, plane<CS> ? 1e-9 : 1e-3), "measured", what);
            auto line = e.line;
            f.insert(f.end(), t.begin(), t.end());
            const auto plain = [&](std::vector<xy> &l) {
                std::erase_if(l, [&](const xy &x) {
                    // points of the edge next to the position may have been taken for it
                    return x == q or (not plane<CS> and dist(x, q) < 0.3);
                });
                l.erase(std::unique(l.begin(), l.end()), l.end());
            };
            plain(f);
            plain(line);
            ctx.require(f == line, "points", what);
        }

        void adoption(const std::vector<xy> &track, const S &s, const std::vector<std::map<key, double>> &owned,
                const std::vector<std::map<key, double>> &all, const std::vector<candidate_type> &candidates,
                const std::function<std::string()> &say) {
            const std::size_t m = track.size();
            std::vector<std::set<key>> must(m), may(m);
            for (std::size_t i = 0; i < m; ++i) {
                for (const auto &[k, d] : owned[i]) {
                    must[i].insert(k);
                    may[i].insert(k);
                }
            }
            const auto farthest = [&](std::size_t i, const std::set<key> &set) {
                double d = 0;
                for (const auto &k : set) {
                    d = std::max(d, dist(track[i], k.second));
                }
                return d;
            };
            if (s.candidate_adoption_nearby) {
                for (std::size_t i = 0; i < m; ++i) {
                    for (const bool sure : {true, false}) {
                        auto &set = sure ? must : may;
                        const double d0 = farthest(i, set[i]);
                        if (set[i].empty() or (sure and d0 <= 0)) {
                            continue;
                        }
                        const double d = sure ? d0 - eps(d0) : d0 + eps(d0);
                        for (std::size_t j = 0; j < m; ++j) {
                            for (const auto &[k, dj] : owned[j]) {
                                if (j != i and dist(track[i], track[j], k.second) <= d) {
                                    set[i].insert(k);
                                    if (s.candidate_adoption_reverse) {
                                        for (const auto &o : owned[i]) {
                                            set[j].insert(o.first);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if (s.candidate_adoption_siblings) {
                for (std::size_t i = 0; i < m; ++i) {
                    for (const std::size_t j : {i - 1, i + 1}) {
                        if (j < m) {
                            for (const auto &[k, d] : owned[j]) {
                                must[i].insert(k);
                                may[i].insert(k);
                            }
                        }
                    }
                }
            }
            for (std::size_t i = 0; i < m; ++i) {
                for (const auto &k : must[i]) {
                    ctx.require(all[i].contains(k), "adoption-missing", [&] {
                        return vh::cat(std::setprecision(17), "edge ", k.first, " (", k.second.first, ",", k.second.second, ") at point ", i, " ", say());
                    });
                }
                for (const auto &[k, d] : all[i]) {
                    ctx.require(may[i].contains(k), "adoption-extra", [&] {
                        return vh::cat(std::setprecision(17), "edge ", k.first, " (", k.second.first, ",", k.second.second, ") at point ", i, " ", say());
                    });
                }
                ctx.stat("candidates_adopted", static_cast<long>(all[i].size() - owned[i].size()));
                // adopted candidates share the parts of the edge with the candidate they come from
                for (const auto &ce : candidates[i].edges) {
                    if (ce.adopted) {
                        bool found = false;
                        for (std::size_t j = 0; j < m and not found; ++j) {
                            for (const auto &o : candidates[j].edges) {
                                found = found or (not o.adopted and o == ce and
                                        net::to_xys(o.from->line()) == net::to_xys(ce.from->line()) and
                                        net::to_xys(o.to->line()) == net::to_xys(ce.to->line()));
                            }
                        }
                        ctx.require(found, "adoption-parts", say);
                    }
                }
            }
        }
    };

    template<typename CS>
    void scenario(vh::context &ctx, vh::rng &r) {
        using M = monitor<CS>;
        net::plan_options o;
        o.max_nodes = ctx.thorough ? 25 : 12;
        o.grid = static_cast<int>(r.range(3, 12));
        o.coincident = plane<CS> ? 0.1 : 0.0;
        o.edge_factor = r.chance(0.05) ? 0 : r.real(0.5, 2.5);
        net::plan p = net::random_plan(r, o);
        const bool integers = r.chance(0.5);
        const double unit = plane<CS> ? (integers ? static_cast<double>(r.range(1, 20)) : r.real(1, 20)) : r.real(0.0002, 0.002);
        const double meter = plane<CS> ? unit : unit * 111000;
        const double x0 = plane<CS> ? 0 : r.real(-170, 170), y0 = plane<CS> ? 0 : r.real(-70, 70);
        if (r.chance(0.5) and not p.edges.empty()) {
            // a road of many points
            auto &e = p.edges[static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(p.edges.size()) - 1))];
            std::vector<xy> line{e.line.front()};
            for (auto k = r.range(15, 40); k > 0; --k) {
                line.push_back({r.real(0, o.grid), r.real(0, o.grid)});
            }
            line.push_back(e.line.back());
            e.line = line;
        }
        const auto place = [&](xy q) { return xy{x0 + unit * q.first, y0 + unit * q.second}; };
        for (auto &v : p.nodes) {
            v.p = place(v.p);
        }
        for (auto &e : p.edges) {
            for (auto &q : e.line) {
                q = place(q);
            }
        }
        if constexpr (not plane<CS>) {
            std::erase_if(p.edges, [](const auto &e) {
                for (std::size_t i = 1; i < e.line.size(); ++i) {
                    if (e.line[i - 1] == e.line[i]) {
                        return true;
                    }
                }
                return false;
            });
        }
        auto n = net::bake<network_type<CS>>(net::build<import_type<CS>>(p));
        n.build_spatial_indices();
        M monitor{ctx, r, n};
        map_matching_2::util::time_helper time;
        const ma::candidate_searcher<network_type<CS>> used{n, time};
        for (int round = 0; round < 3; ++round) {
            std::vector<xy> track;
            for (auto k = r.range(1, ctx.thorough ? 12 : 6); k > 0; --k) {
                xy q;
                if (r.chance(0.25) and not p.edges.empty()) {
                    q = r.pick(r.pick(p.edges).line);
                    if (plane<CS> and r.chance(0.5)) {
                        q.first += r.real(-2e-4, 2e-4);
                        q.second += r.real(-2e-4, 2e-4);
                    }
                } else if (r.chance(0.1) and not track.empty()) {
                    q = r.pick(track);
                } else if (r.chance(0.1)) {
                    q = place({r.real(-10, 3) * o.grid, r.real(-10, 3) * o.grid});
                } else {
                    q = place(integers ? xy{r.range(-1, o.grid + 1), r.range(-1, o.grid + 1)} : xy{r.real(-1, o.grid + 1), r.real(-1, o.grid + 1)});
                }
                track.push_back(q);
            }
            S s;
            s.candidate_search = static_cast<S::CANDIDATE_SEARCH>(r.range(0, 3));
            s.k_nearest = static_cast<std::size_t>(s.candidate_search == S::NEXT ? 1 : r.range(1, r.chance(0.5) ? 4 : 20));
            s.radius = meter * (integers ? static_cast<double>(r.range(1, 6)) : r.real(0.2, 6));
            s.radius_lower_limit = s.radius * r.real(0.1, 1);
            s.radius_upper_limit = s.radius * (r.chance(0.3) ? 1.0 : r.real(1, 50));
            s.adaptive_radius = r.chance(0.6);
            s.candidate_adoption_siblings = r.chance(0.5);
            s.candidate_adoption_nearby = r.chance(0.5);
            s.candidate_adoption_reverse = s.candidate_adoption_nearby and r.chance(0.4);
            typename M::line_type line;
            for (const auto &q : track) {
                line.emplace_back(M::P(q));
            }
            const typename M::track_type t{"t", std::move(line)};
            const ma::candidate_searcher<network_type<CS>> fresh{n, time};
            const auto &searcher = r.chance(0.5) ? used : fresh;
            const std::function<std::string()> say = [&] {
                std::ostringstream w;
                w << std::setprecision(17) << "search " << s.candidate_search << " k " << s.k_nearest << " radius " << s.radius << " ["
                        << s.radius_lower_limit << "," << s.radius_upper_limit << "] adaptive " << s.adaptive_radius << " siblings "
                        << s.candidate_adoption_siblings << " nearby " << s.candidate_adoption_nearby << " reverse "
                        << s.candidate_adoption_reverse << " track";
                for (const auto &q : track) {
                    w << " (" << q.first << "," << q.second << ")";
                }
                w << " " << p.str();
                return w.str();
            };
            ctx.observe(vh::hash_str(say()));
            monitor.check(track, s, searcher.candidate_search(t, s), t, say);
            ctx.stat(vh::cat("searches_", s.candidate_search == S::CIRCLE ? "circle" : s.candidate_search == S::NEAREST ? "nearest" :
                    s.candidate_search == S::COMBINED ? "combined" : "next"));
        }
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"plane", scenario<MM2_CARTESIAN>, 2500, 60000}, {"ellipsoid", scenario<MM2_GEOGRAPHIC>, 300, 8000}});
}
