// Monitor: shortest path searches against exhaustive relaxation, on plain graphs and on road networks with limits.
#include "graph_model.hpp"
#include "net.hpp"

#include "graph/algorithm/a_star_shortest_path.hpp"
#include "graph/algorithm/dijkstra_shortest_path.hpp"

using namespace map_matching_2;

namespace {

    constexpr double inf = std::numeric_limits<double>::infinity();

    template<typename Graph>
    struct counting_visitor : graph::visitor {
        std::size_t discovered{0}, examined{0}, finished{0};
        bool has_goal{false};
        typename Graph::vertex_descriptor goal{};

        void discover_vertex(const Graph &, const typename Graph::vertex_descriptor &) { ++discovered; }

        void examine_vertex(const Graph &, const typename Graph::vertex_descriptor &) { ++examined; }

        void finish_vertex(const Graph &, const typename Graph::vertex_descriptor &v) {
            ++finished;
            if (has_goal and v == goal) {
                this->stop();
            }
        }
    };

    struct raw_graph {
        std::size_t n;
        std::vector<std::tuple<std::size_t, std::size_t, long>> edges;

        [[nodiscard]] std::string str() const {
            std::ostringstream o;
            o << "n=" << n;
            for (const auto &[s, t, w] : edges) {
                o << " " << s << "-" << w << ">" << t;
            }
            return o.str();
        }

        [[nodiscard]] std::vector<double> distances(std::size_t s, bool backwards = false) const {
            std::vector<double> d(n, inf);
            d[s] = 0;
            for (bool changed = true; changed;) {
                changed = false;
                for (auto [a, b, w] : edges) {
                    if (backwards) {
                        std::swap(a, b);
                    }
                    if (d[a] + static_cast<double>(w) < d[b]) {
                        d[b] = d[a] + static_cast<double>(w);
                        changed = true;
                    }
                }
            }
            return d;
        }
    };

    raw_graph random_raw(vh::rng &r, bool thorough) {
        raw_graph g;
        g.n = static_cast<std::size_t>(r.range(1, thorough ? 40 : 14));
        const auto m = r.range(0, static_cast<long>(g.n) * 3);
        const long wmax = r.chance(0.3) ? 2 : r.chance(0.5) ? 10 : 1000;
        const long wmin = r.chance(0.5) ? 0 : 1;
        for (long i = 0; i < m; ++i) {
            const auto s = static_cast<std::size_t>(r.range(0, static_cast<long>(g.n) - 1));
            const auto t = static_cast<std::size_t>(r.range(0, static_cast<long>(g.n) - 1));
            g.edges.emplace_back(s, t, r.range(wmin, wmax));
        }
        return g;
    }

    template<typename Graph>
    std::vector<typename Graph::vertex_descriptor> descriptors(Graph &g) {
        std::vector<typename Graph::vertex_descriptor> out;
        auto vv = g.vertices_view();
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
            out.push_back(it);
        }
        return out;
    }

    // the reported predecessor chain must be a real walk of exactly the reported length
    template<typename Pred>
    std::string check_chain(const raw_graph &raw, const Pred &pred, std::size_t start, std::size_t v, double expect) {
        double sum = 0;
        std::size_t steps = 0;
        while (v != start) {
            const auto it = pred.find(v);
            if (it == pred.end()) {
                return vh::cat("vertex ", v, " has no predecessor");
            }
            const auto p = it->second;
            double best = inf;
            for (const auto &[a, b, w] : raw.edges) {
                if (a == p and b == v) {
                    best = std::min(best, static_cast<double>(w));
                }
            }
            if (best == inf) {
                return vh::cat("no edge ", p, ">", v);
            }
            sum += best;
            v = p;
            if (++steps > raw.n) {
                return "cycle in predecessors";
            }
        }
        return sum == expect ? "" : vh::cat("path length ", sum, " expected ", expect);
    }

    template<typename Graph>
    void check_graph(vh::context &ctx, vh::rng &r, Graph &g, const raw_graph &raw, const char *kind) {
        const auto vd = descriptors(g);
        const auto weight = [](const long &w) { return static_cast<double>(w); };
        using queue_t = graph::priority_queue_type<graph::priority_type<double, typename Graph::vertex_descriptor>>;
        const auto start = static_cast<std::size_t>(r.range(0, static_cast<long>(raw.n) - 1));
        const auto ref = raw.distances(start);
        {
            graph::predecessors_type pred;
            graph::distances_type<double> dist;
            graph::colors_type colors;
            queue_t queue;
            counting_visitor<Graph> visitor;
            graph::dijkstra_shortest_path(g, vd[start], pred, dist, colors, queue, visitor, weight);
            for (std::size_t v = 0; v < raw.n; ++v) {
                const auto it = dist.find(v);
                const double got = it == dist.end() ? inf : it->second;
                if (got != ref[v]) {
                    ctx.fail("dijkstra-distance", vh::cat(kind, " ", start, " to ", v, ": ", got, " expected ", ref[v],
                            " in ", raw.str()));
                }
                if (ref[v] == inf) {
                    ctx.stat("unreachable_checked");
                    ctx.require(not pred.contains(v), "dijkstra-predecessor",
                            [&] { return vh::cat("unreachable ", v, " has a predecessor in ", raw.str()); });
                } else {
                    const auto err = check_chain(raw, pred, start, v, ref[v]);
                    ctx.require(err.empty(), "dijkstra-path", [&] {
                        return vh::cat(kind, " ", start, " to ", v, ": ", err, " in ", raw.str());
                    });
                    ctx.stat("paths_checked");
                }
            }
            ctx.require(visitor.examined == visitor.finished, "dijkstra-visitor", "examined and finished differ");
        }
        // goal directed, with an admissible and consistent lower bound derived from the true remaining distance
        const auto goal = static_cast<std::size_t>(r.range(0, static_cast<long>(raw.n) - 1));
        const auto remaining = raw.distances(goal, true);
        const double f = r.chance(0.2) ? 0.0 : r.chance(0.2) ? 1.0 : r.real();
        const auto exact = [&](const auto &v, const auto &) {
            const auto d = remaining[g.vertex_index(v)];
            return d == inf ? 1e9 : f * d;
        };
        graph::predecessors_type pred;
        graph::distances_type<double> dist;
        graph::colors_type colors;
        queue_t queue;
        counting_visitor<Graph> visitor;
        visitor.has_goal = true;
        visitor.goal = vd[goal];
        graph::a_star_shortest_path(g, vd[start], vd[goal], pred, dist, colors, queue, visitor, weight, exact);
        const auto it = dist.find(goal);
        const double got = it == dist.end() ? inf : it->second;
        if (not vh::close(got, ref[goal])) {
            ctx.fail("a-star-distance", vh::cat(kind, " ", start, " to ", goal, ": ", got, " expected ", ref[goal],
                    " lower bound factor ", f, " in ", raw.str()));
        }
        if (ref[goal] != inf) {
            const auto err = check_chain(raw, pred, start, goal, got);
            ctx.require(err.empty(), "a-star-path", [&] {
                return vh::cat(kind, " ", start, " to ", goal, ": ", err, " in ", raw.str());
            });
            ctx.stat("a_star_paths_checked");
        }
        ctx.require(visitor.stopped() == (ref[goal] != inf), "a-star-goal",
                [&] { return vh::cat("goal finished without being reachable or the reverse: ", raw.str()); });
    }

    template<typename Dir>
    void plain(vh::context &ctx, vh::rng &r) {
        using list_graph = graph::adjacency_list<std::list, std::list, Dir, long, long, std::list>;
        using csr_graph = graph::compressed_sparse_row<std::vector, std::vector, Dir, long, long>;
        const auto raw = random_raw(r, ctx.thorough);
        list_graph g;
        std::vector<typename list_graph::vertex_descriptor> vd;
        for (std::size_t i = 0; i < raw.n; ++i) {
            vd.push_back(g.add_vertex(static_cast<long>(i)));
        }
        for (const auto &[s, t, w] : raw.edges) {
            g.add_edge(vd[s], vd[t], w);
        }
        check_graph(ctx, r, g, raw, "list");
        csr_graph c;
        c.from_adjacency_list(g);
        check_graph(ctx, r, c, raw, "compact");
        if (not raw.edges.empty()) {
            ctx.observe(vh::hash_str(raw.str()));
        }
        ctx.sample(raw.str());
    }

    template<typename List>
    double path_length(const net::view &v, const List &path, std::string &err) {
        double sum = 0;
        for (auto it = path.begin(); it != path.end(); ++it) {
            const auto next = std::next(it);
            if (next == path.end()) {
                break;
            }
            double best = inf;
            for (const auto &e : v.edges) {
                if (e.s == *it and e.t == *next) {
                    best = std::min(best, e.len);
                }
            }
            if (best == inf) {
                err = vh::cat("path uses missing road ", *it, ">", *next);
            }
            sum += best;
        }
        return sum;
    }

    template<typename List>
    std::string path_str(const List &path) {
        std::ostringstream o;
        for (const auto v : path) {
            o << " " << v;
        }
        return o.str();
    }

    void network_paths(vh::context &ctx, vh::rng &r) {
        net::plan_options o;
        o.max_nodes = ctx.thorough ? 25 : 12;
        o.edge_factor = r.real(1.0, 3.0);
        o.coincident = r.chance(0.2) ? 0.2 : 0.0;
        const auto plan = net::random_plan(r, o);
        const auto n = net::bake(net::build(plan));
        const auto v = net::observe(n);
        using network_t = std::decay_t<decltype(n)>;
        using vd_t = typename network_t::vertex_descriptor;
        graph::predecessors_type pred;
        graph::distances_type<double> dist;
        graph::colors_type colors;
        graph::priority_queue_type<graph::priority_type<double, vd_t>> queue;
        bool limited_hit = false;
        for (int q = 0; q < 6; ++q) {
            // the search state is reused between queries as the router does
            const auto start = static_cast<std::size_t>(r.range(0, static_cast<long>(v.nodes.size()) - 1));
            const auto ref = net::distances(v, start);
            boost::unordered_flat_set<vd_t> goals;
            for (auto k = r.range(1, 4); k > 0; --k) {
                goals.emplace(static_cast<std::size_t>(r.range(0, static_cast<long>(v.nodes.size()) - 1)));
            }
            double max_distance = 0, factor = -1.0;
            if (r.chance(0.7)) {
                factor = r.chance(0.5) ? 1.0 : r.real(0.2, 4.0);
                max_distance = r.chance(0.5) ? static_cast<double>(r.range(0, 20)) : [&] {
                    double m = 0;
                    for (const auto g : goals) {
                        m = std::max(m, net::dist(v.nodes[start].p, v.nodes[g].p));
                    }
                    return m;
                }();
            }
            const double limit = factor < 0 ? inf : factor * max_distance;
            const auto what = [&] {
                return vh::cat(" from ", start, " limit ", limit, " in ", plan.str());
            };
            const auto paths = n.dijkstra_shortest_paths(start, goals, max_distance, factor, pred, dist, colors, queue);
            std::set<std::size_t> found;
            for (const auto &path : paths) {
                ctx.require(not path.empty() and path.front() == start and goals.contains(path.back()),
                        "limited-path-ends", [&] { return vh::cat("path", path_str(path), what()); });
                ctx.require(found.insert(path.back()).second, "limited-path-twice",
                        [&] { return vh::cat("goal ", path.back(), " reported twice", what()); });
                std::string err;
                const auto len = path_length(v, path, err);
                ctx.require(err.empty(), "limited-path-connected", [&] { return err + what(); });
                ctx.require(vh::close(len, ref[path.back()], 1e-9, 1e-7), "limited-path-optimal", [&] {
                    return vh::cat("path", path_str(path), " length ", len, " shortest ", ref[path.back()], what());
                });
                ctx.require(len <= limit * (1 + 1e-9) + 1e-9, "limited-path-beyond-limit",
                        [&] { return vh::cat("path", path_str(path), " length ", len, what()); });
                const auto route = n.extract_route(path);
                ctx.require(not route.is_invalid(), "route-extraction", [&] { return "invalid route" + what(); });
                if (path.size() > 1) {
                    const double rl = route.has_length() ? route.length() : 0.0;
                    ctx.require(vh::close(rl, len, 1e-9, 1e-7), "route-extraction", [&] {
                        return vh::cat("route length ", rl, " path length ", len, " path", path_str(path), what());
                    });
                    ctx.stat("routes_extracted");
                }
                ctx.stat("limited_paths_checked");
            }
            for (const auto g : goals) {
                // within rounding of the limit either answer is right
                if (ref[g] < inf and (limit == inf or ref[g] < limit * (1 - 1e-9) - 1e-9)) {
                    ctx.require(found.contains(g), "limited-path-missing", [&] {
                        return vh::cat("goal ", g, " at distance ", ref[g], " not reported", what());
                    });
                } else if (ref[g] < inf) {
                    ctx.stat("goals_beyond_limit");
                    limited_hit = true;
                } else {
                    ctx.stat("goals_unreachable");
                }
            }
            const auto goal = *goals.begin();
            const auto path = n.a_star_shortest_paths(start, goal, max_distance, factor, pred, dist, colors, queue);
            const bool in_limit = ref[goal] < inf and (limit == inf or ref[goal] < limit * (1 - 1e-9) - 1e-9);
            const bool beyond = ref[goal] == inf or ref[goal] > limit * (1 + 1e-9) + 1e-9;
            if (in_limit) {
                ctx.require(not path.empty() and path.front() == start and path.back() == goal, "goal-directed-ends",
                        [&] { return vh::cat("path", path_str(path), " to ", goal, what()); });
                std::string err;
                const auto len = path_length(v, path, err);
                ctx.require(err.empty(), "goal-directed-connected", [&] { return err + what(); });
                ctx.require(vh::close(len, ref[goal], 1e-9, 1e-7), "goal-directed-optimal", [&] {
                    return vh::cat("path", path_str(path), " length ", len, " shortest ", ref[goal], what());
                });
                ctx.stat("goal_directed_paths_checked");
            } else if (beyond) {
                ctx.require(path.empty(), "goal-directed-not-found", [&] {
                    return vh::cat("goal ", goal, " at distance ", ref[goal], " got path", path_str(path), what());
                });
                ctx.stat("goal_directed_misses_checked");
            }
        }
        if (not plan.edges.empty()) {
            ctx.observe(plan.fingerprint());
        }
        if (limited_hit) {
            ctx.stat("cases_with_limit_pruning");
        }
        ctx.sample(plan.str());
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {
            {"plain-directional", plain<graph::directional>, 30000, 400000},
            {"plain-bidirectional", plain<graph::bidirectional>, 30000, 400000},
            {"network", network_paths, 30000, 600000},
    });
}
