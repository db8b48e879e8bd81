// Monitor: removal of duplicate nodes and edges against the network contracted by position.
#include "net.hpp"

namespace {

    using road = std::pair<std::uint64_t, std::vector<net::xy>>;

    std::map<road, int> roads(const net::view &v) {
        std::map<road, int> out;
        for (const auto &e : v.edges) {
            ++out[{e.id, e.line}];
        }
        return out;
    }

    // the same network with all nodes of one position joined
    net::view contracted(const net::view &v, std::map<net::xy, std::size_t> &pos) {
        net::view out;
        pos.clear();
        for (const auto &n : v.nodes) {
            if (pos.emplace(n.p, out.nodes.size()).second) {
                out.nodes.push_back(n);
            }
        }
        for (auto e : v.edges) {
            e.s = pos.at(v.nodes[e.s].p);
            e.t = pos.at(v.nodes[e.t].p);
            out.edges.push_back(e);
        }
        return out;
    }

    std::map<std::pair<net::xy, net::xy>, int> proper_segments(const net::view &v) {
        auto s = net::segments(v);
        std::erase_if(s, [](const auto &e) { return e.first.first == e.first.second; });
        return s;
    }

    std::string str(const net::view &v) {
        std::ostringstream o;
        for (const auto &e : v.edges) {
            o << " #" << e.id << ":" << v.nodes[e.s].id << ">" << v.nodes[e.t].id << "(" << e.line.size() << ")";
        }
        return o.str();
    }

    net::plan duplicated_plan(vh::context &ctx, vh::rng &r) {
        net::plan_options o;
        o.min_nodes = 1;
        o.max_nodes = ctx.thorough ? 20 : 10;
        o.edge_factor = r.real(0.4, 1.6);
        o.coincident = r.real(0.1, 0.7);
        o.two_way = r.real();
        o.bend = r.real(0.0, 0.6);
        o.loop = r.chance(0.3) ? 0.3 : 0.05;
        o.edge_id_pool = r.chance(0.5) ? 0 : static_cast<int>(r.range(1, 4));
        o.grid = static_cast<int>(r.range(1, 6));
        auto p = r.chance(0.3)
                ? net::random_street_plan(r, static_cast<int>(r.range(1, 6)), static_cast<int>(r.range(1, 4)), r.real(), o.edge_id_pool)
                : net::random_plan(r, o);
        if (r.chance(0.5)) {
            // nodes doubled on purpose, each taking over some of the roads
            const auto n = p.nodes.size();
            for (std::size_t i = 0; i < n; ++i) {
                for (int k = r.chance(0.3) ? static_cast<int>(r.range(1, 3)) : 0; k > 0; --k) {
                    p.nodes.push_back({5000 + p.nodes.size(), p.nodes[i].p});
                    for (auto &e : p.edges) {
                        if (e.s == i and r.chance(0.4)) {
                            e.s = p.nodes.size() - 1;
                        }
                        if (e.t == i and r.chance(0.4)) {
                            e.t = p.nodes.size() - 1;
                        }
                    }
                }
            }
        }
        return p;
    }

    void compare_distances(vh::context &ctx, const net::view &before, const net::view &after, const char *key,
            bool exact, const std::function<std::string()> &what) {
        std::map<net::xy, std::size_t> pb, pa;
        const auto b = contracted(before, pb), a = contracted(after, pa);
        for (const auto &[p, i] : pa) {
            const auto d0 = net::distances(b, pb.at(p)), d1 = net::distances(a, i);
            for (const auto &[q, j] : pa) {
                ctx.require(vh::close(d0[pb.at(q)], d1[j], 1e-9, 1e-9), key, [&] {
                    return vh::cat("from (", p.first, " ", p.second, ") to (", q.first, " ", q.second, ") was ",
                            d0[pb.at(q)], " is ", d1[j], what());
                });
                ctx.stat("distances_compared");
            }
        }
    }

    void nodes(vh::context &ctx, vh::rng &r) {
        const auto plan = duplicated_plan(ctx, r);
        const bool simplify = r.chance(0.5), complete = r.chance(0.5);
        auto n = net::build(plan);
        const auto before = net::observe(plan);
        n.remove_duplicate_nodes(simplify, complete);
        const auto after = net::observe(n);
        const std::function<std::string()> what = [&] {
            return vh::cat(simplify ? " simplifying " : " ", complete ? "complete " : "", plan.str(), " became", str(after));
        };
        std::map<net::xy, std::set<std::uint64_t>> ids;
        for (const auto &v : before.nodes) {
            ids[v.p].insert(v.id);
        }
        std::set<net::xy> seen;
        for (const auto &v : after.nodes) {
            ctx.require(seen.insert(v.p).second, "duplicate-node-left", [&] { return vh::cat("node ", v.id, what()); });
            ctx.require(ids.contains(v.p) and ids[v.p].contains(v.id), "duplicate-node-position",
                    [&] { return vh::cat("node ", v.id, what()); });
        }
        for (const auto &e : after.edges) {
            ctx.require(e.line.size() >= 2 and e.line.front() == after.nodes[e.s].p and e.line.back() == after.nodes[e.t].p,
                    "duplicate-node-road-ends", [&] { return vh::cat("road ", e.id, what()); });
        }
        if (not simplify) {
            ctx.require(seen.size() == ids.size(), "duplicate-node-missing", what);
            ctx.require(roads(before) == roads(after), "duplicate-node-roads", what);
        } else {
            ctx.require(proper_segments(before) == proper_segments(after), "duplicate-node-geometry", what);
            // a position only disappears when it is just passed through
            std::map<net::xy, std::pair<int, int>> degree;
            for (const auto &e : before.edges) {
                ++degree[before.nodes[e.s].p].second;
                ++degree[before.nodes[e.t].p].first;
            }
            for (const auto &[p, x] : ids) {
                if (not seen.contains(p)) {
                    const auto d = degree[p];
                    ctx.require(d.first == d.second and (d.first == 1 or d.first == 2), "duplicate-node-junction",
                            [&] { return vh::cat("position (", p.first, " ", p.second, ") disappeared", what()); });
                    ctx.stat("positions_joined");
                }
            }
        }
        compare_distances(ctx, before, after, "duplicate-node-distance", true, what);
        std::size_t index = 0;
        const auto vv = n.graph().vertices_view();
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
            ctx.require(n.graph().vertex_index(it) == index++, "duplicate-node-index", what);
        }
        std::size_t triple = 0;
        for (const auto &[p, x] : ids) {
            triple += x.size() > 2;
        }
        ctx.stat("nodes_removed", static_cast<long long>(before.nodes.size() - after.nodes.size()));
        ctx.stat("positions_with_three_or_more_nodes", static_cast<long long>(triple));
        if (before.nodes.size() != after.nodes.size()) {
            ctx.observe(plan.fingerprint() ^ (simplify * 2 + complete));
        }
        ctx.sample(plan.str());
    }

    void edges(vh::context &ctx, vh::rng &r) {
        auto plan = duplicated_plan(ctx, r);
        const auto m = plan.edges.size();
        for (std::size_t i = 0; i < m; ++i) {
            for (int k = r.chance(0.4) ? static_cast<int>(r.range(1, 4)) : 0; k > 0; --k) {
                auto e = plan.edges[i];
                if (r.chance(0.2)) {
                    e.id += 1;
                } else if (r.chance(0.2) and e.line.size() > 2) {
                    e.line[1].first += 0.5;
                }
                plan.edges.insert(plan.edges.begin() + r.range(0, static_cast<long>(plan.edges.size())), e);
            }
        }
        auto n = net::build(plan);
        const bool nodes_first = r.chance(0.5);
        if (nodes_first) {
            n.remove_duplicate_nodes(false, true);
        }
        const auto before = net::observe(n);
        n.remove_duplicate_edges();
        const auto after = net::observe(n);
        const std::function<std::string()> what = [&] { return vh::cat(" ", plan.str(), " became", str(after)); };
        auto expect = roads(before);
        for (auto &[k, count] : expect) {
            if (count > 1) {
                ctx.stat("duplicate_roads", count - 1);
            }
            count = 1;
        }
        ctx.require(expect == roads(after), "duplicate-edge-roads", what);
        ctx.require(before.nodes.size() == after.nodes.size(), "duplicate-edge-nodes", what);
        for (std::size_t i = 0; i < before.nodes.size(); ++i) {
            ctx.require(before.nodes[i].id == after.nodes[i].id and before.nodes[i].p == after.nodes[i].p,
                    "duplicate-edge-nodes", what);
        }
        for (const auto &e : after.edges) {
            ctx.require(e.line.front() == after.nodes[e.s].p and e.line.back() == after.nodes[e.t].p,
                    "duplicate-edge-ends", what);
        }
        compare_distances(ctx, before, after, "duplicate-edge-distance", true, what);
        std::size_t index = 0;
        const auto ev = n.graph().edges_view();
        for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
            ctx.require(n.graph().edge_index(it) == index++, "duplicate-edge-index", what);
        }
        if (before.edges.size() != after.edges.size()) {
            ctx.observe(plan.fingerprint() ^ nodes_first);
        }
        ctx.sample(plan.str());
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {
            {"nodes", nodes, 20000, 400000},
            {"edges", edges, 20000, 400000},
    });
}
