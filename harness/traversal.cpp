// Monitor: breadth and depth first traversals and component pruning against plain reachability.
#include <boost/unordered/unordered_flat_set.hpp>

#include "graph/algorithm/breadth_first_search.hpp"
#include "graph/algorithm/depth_first_search.hpp"

#include "graph_model.hpp"
#include "net.hpp"

using namespace map_matching_2;

namespace {

    template<typename Graph>
    struct recorder : public graph::visitor {
        std::vector<std::size_t> discovered, examined, finished;
        std::vector<long> edges;

        template<typename G>
        void discover_vertex(const G &g, const typename G::vertex_descriptor &v) { discovered.push_back(g.vertex_index(v)); }

        template<typename G>
        void examine_vertex(const G &g, const typename G::vertex_descriptor &v) { examined.push_back(g.vertex_index(v)); }

        template<typename G>
        void finish_vertex(const G &g, const typename G::vertex_descriptor &v) { finished.push_back(g.vertex_index(v)); }

        template<typename G>
        void examine_edge(const G &g, const typename G::edge_descriptor &e) { edges.push_back(g.get_edge_data(e)); }
    };

    struct raw_graph {
        std::size_t n{0};
        std::vector<std::tuple<std::size_t, std::size_t, long>> edges;

        [[nodiscard]] std::string str() const {
            std::ostringstream o;
            o << "n=" << n;
            for (const auto &[s, t, w] : edges) {
                o << " " << s << ">" << t;
            }
            return o.str();
        }

        // hop distance from s, -1 when unreachable; vertices marked visited beforehand are walls
        [[nodiscard]] std::vector<long> hops(std::size_t s, const std::set<std::size_t> &walls) const {
            std::vector<long> d(n, -1);
            d[s] = 0;
            for (bool changed = true; changed;) {
                changed = false;
                for (const auto &[a, b, w] : edges) {
                    if (d[a] >= 0 and not walls.contains(b) and (d[b] < 0 or d[b] > d[a] + 1)) {
                        d[b] = d[a] + 1;
                        changed = true;
                    }
                }
            }
            return d;
        }
    };

    template<typename Graph>
    void check(vh::context &ctx, vh::rng &r, Graph &g, const raw_graph &raw, const char *kind) {
        std::vector<typename Graph::vertex_descriptor> vd;
        auto vv = g.vertices_view();
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
            vd.push_back(it);
        }
        for (const bool bfs : {true, false}) {
            const char *name = bfs ? "breadth-first" : "depth-first";
            boost::unordered_flat_set<std::size_t> visited;
            graph::queue_type<typename Graph::vertex_descriptor> queue;
            graph::stack_type<typename Graph::vertex_descriptor> stack;
            std::set<std::size_t> walls;
            // one traversal, and further ones continuing where the earlier ones left off
            for (int round = 0; round < 3; ++round) {
                const auto start = static_cast<std::size_t>(r.range(0, static_cast<long>(raw.n) - 1));
                if (walls.contains(start)) {
                    continue;
                }
                const auto hops = raw.hops(start, walls);
                recorder<Graph> rec;
                if (bfs) {
                    graph::breadth_first_search(g, vd[start], visited, queue, rec);
                } else {
                    graph::depth_first_search(g, vd[start], visited, stack, rec);
                }
                const auto what = [&](const char *problem) {
                    std::ostringstream o;
                    o << name << " " << kind << " " << problem << " from " << start << " in " << raw.str() << " got";
                    for (const auto v : rec.discovered) {
                        o << " " << v;
                    }
                    return o.str();
                };
                std::set<std::size_t> expect, got{rec.discovered.begin(), rec.discovered.end()};
                long expect_edges = 0;
                for (std::size_t v = 0; v < raw.n; ++v) {
                    if (hops[v] >= 0) {
                        expect.insert(v);
                    }
                }
                for (const auto &[a, b, w] : raw.edges) {
                    expect_edges += hops[a] >= 0;
                }
                ctx.require(got == expect, vh::cat(name, "-reached"), [&] { return what("visits other vertices"); });
                ctx.require(got.size() == rec.discovered.size(), vh::cat(name, "-once"),
                        [&] { return what("discovers a vertex twice"); });
                ctx.require(rec.examined == rec.finished and rec.examined.size() == got.size(), vh::cat(name, "-examined"),
                        [&] { return what("examines other vertices than it discovers"); });
                ctx.require(static_cast<long>(rec.edges.size()) == expect_edges and
                            std::set<long>{rec.edges.begin(), rec.edges.end()}.size() == rec.edges.size(),
                        vh::cat(name, "-edges"), [&] { return what("does not examine every edge once"); });
                ctx.require(rec.discovered.front() == start, vh::cat(name, "-start"), [&] { return what("wrong start"); });
                if (bfs) {
                    for (std::size_t i = 1; i < rec.discovered.size(); ++i) {
                        ctx.require(hops[rec.discovered[i - 1]] <= hops[rec.discovered[i]], "breadth-first-order",
                                [&] { return what("is not in order of hops"); });
                    }
                    ctx.require(rec.examined == rec.discovered, "breadth-first-order", [&] { return what("examines out of order"); });
                } else {
                    // every vertex is discovered from an examined predecessor
                    std::map<std::size_t, std::size_t> when;
                    for (std::size_t i = 0; i < rec.examined.size(); ++i) {
                        when[rec.examined[i]] = i;
                    }
                    // the last of the discovered and not yet examined vertices is examined next
                    std::vector<std::size_t> expected_stack{start};
                    std::set<std::size_t> seen{start};
                    seen.insert(walls.begin(), walls.end());
                    for (const auto v : rec.examined) {
                        ctx.require(not expected_stack.empty() and expected_stack.back() == v, "depth-first-order",
                                [&] { return what("does not go deep first"); });
                        expected_stack.pop_back();
                        std::vector<std::size_t> next;
                        for (const auto &[a, b, w] : raw.edges) {
                            if (a == v) {
                                next.push_back(b);
                            }
                        }
                        for (auto it = next.rbegin(); it != next.rend(); ++it) {
                            if (seen.insert(*it).second) {
                                expected_stack.push_back(*it);
                            }
                        }
                    }
                }
                for (std::size_t v = 0; v < raw.n; ++v) {
                    ctx.require(visited.contains(v) == (walls.contains(v) or expect.contains(v)), vh::cat(name, "-visited"),
                            [&] { return what("marks other vertices as visited"); });
                }
                walls.insert(expect.begin(), expect.end());
                ctx.stat("traversals");
                ctx.stat("vertices_reached", static_cast<long long>(got.size()));
                ctx.stat("vertices_unreached", static_cast<long long>(raw.n - walls.size()));
            }
        }
    }

    template<typename Dir>
    void traverse(vh::context &ctx, vh::rng &r) {
        raw_graph raw;
        raw.n = static_cast<std::size_t>(r.range(1, ctx.thorough ? 30 : 12));
        const double factor = r.real(0.0, 2.5);
        long id = 0;
        for (long i = static_cast<long>(factor * static_cast<double>(raw.n)); i > 0; --i) {
            raw.edges.emplace_back(static_cast<std::size_t>(r.range(0, static_cast<long>(raw.n) - 1)),
                    static_cast<std::size_t>(r.range(0, static_cast<long>(raw.n) - 1)), id++);
        }
        using list_graph = graph::adjacency_list<std::list, std::list, Dir, long, long, std::list>;
        list_graph g;
        std::vector<typename list_graph::vertex_descriptor> vd;
        for (std::size_t i = 0; i < raw.n; ++i) {
            vd.push_back(g.add_vertex(static_cast<long>(i)));
        }
        for (const auto &[s, t, w] : raw.edges) {
            g.add_edge(vd[s], vd[t], w);
        }
        check(ctx, r, g, raw, "list");
        graph::compressed_sparse_row<std::vector, std::vector, graph::directional, long, long> c;
        c.from_adjacency_list(g);
        check(ctx, r, c, raw, "compact");
        if (not raw.edges.empty()) {
            ctx.observe(vh::hash_str(raw.str()));
        }
        ctx.sample(raw.str());
    }

    // nodes with ids, and roads with id, end node ids and points
    struct content {
        std::multiset<std::tuple<std::uint64_t, double, double>> nodes;
        std::multiset<std::tuple<std::uint64_t, std::uint64_t, std::uint64_t, std::vector<net::xy>>> edges;

        bool operator==(const content &) const = default;
    };

    void prune(vh::context &ctx, vh::rng &r) {
        net::plan_options o;
        o.min_nodes = r.chance(0.03) ? 0 : 1;
        o.max_nodes = o.min_nodes == 0 ? 0 : ctx.thorough ? 30 : 14;
        o.edge_factor = r.real(0.2, 1.6);
        o.two_way = r.chance(0.5) ? 0.0 : 0.5;
        o.grid = 12;
        const auto plan = net::random_plan(r, o);
        // weak components
        std::vector<std::size_t> comp(plan.nodes.size());
        for (std::size_t i = 0; i < comp.size(); ++i) {
            comp[i] = i;
        }
        for (bool changed = true; changed;) {
            changed = false;
            for (const auto &e : plan.edges) {
                const auto m = std::min(comp[e.s], comp[e.t]);
                changed = changed or comp[e.s] != m or comp[e.t] != m;
                comp[e.s] = comp[e.t] = m;
            }
        }
        std::map<std::size_t, std::size_t> size;
        for (const auto c : comp) {
            ++size[c];
        }
        std::size_t largest = 0;
        for (const auto &[c, n] : size) {
            largest = std::max(largest, n);
        }
        auto n = net::build(plan);
        n.remove_unconnected_components();
        const auto v = net::observe(n);
        content got;
        for (const auto &node : v.nodes) {
            got.nodes.emplace(node.id, node.p.first, node.p.second);
        }
        for (const auto &e : v.edges) {
            got.edges.emplace(e.id, v.nodes[e.s].id, v.nodes[e.t].id, e.line);
        }
        // exactly one of the largest components is left
        bool matched = plan.nodes.empty() and got == content{};
        for (const auto &[c, count] : size) {
            if (count != largest) {
                continue;
            }
            content expect;
            for (std::size_t i = 0; i < comp.size(); ++i) {
                if (comp[i] == c) {
                    expect.nodes.emplace(plan.nodes[i].id, plan.nodes[i].p.first, plan.nodes[i].p.second);
                }
            }
            for (const auto &e : plan.edges) {
                if (comp[e.s] == c) {
                    expect.edges.emplace(e.id, plan.nodes[e.s].id, plan.nodes[e.t].id, e.line);
                }
            }
            matched = matched or got == expect;
        }
        ctx.require(matched, "pruning", [&] {
            return vh::cat("left ", v.nodes.size(), " nodes and ", v.edges.size(), " edges, the largest component has ",
                    largest, " nodes: ", plan.str());
        });
        // indices are consecutive again
        std::size_t index = 0;
        const auto vv = n.graph().vertices_view();
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
            ctx.require(n.graph().vertex_index(it) == index++, "pruning-index", [&] { return plan.str(); });
        }
        const auto baked = net::observe(net::bake(n));
        ctx.require(baked.nodes.size() == v.nodes.size() and baked.edges.size() == v.edges.size(), "pruning-compact",
                [&] { return plan.str(); });
        ctx.stat("networks_pruned", size.size() > 1);
        ctx.stat("networks_connected", size.size() == 1);
        ctx.stat("networks_empty", plan.nodes.empty());
        ctx.observe(plan.fingerprint());
        ctx.sample(plan.str());
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {
            {"traverse-directional", traverse<graph::directional>, 20000, 400000},
            {"traverse-bidirectional", traverse<graph::bidirectional>, 20000, 400000},
            {"prune", prune, 8000, 200000},
    });
}
