// Monitor: network simplification against all-pairs distances, directed road geometry and tags of the raw network.
#include "net.hpp"

namespace {

    using segment_key = std::pair<net::xy, net::xy>;

    std::map<segment_key, int> proper_segments(const net::view &v) {
        auto s = net::segments(v);
        std::erase_if(s, [](const auto &e) { return e.first.first == e.first.second; });
        return s;
    }

    // nodes of the view by id
    std::map<std::uint64_t, std::size_t> by_id(const net::view &v) {
        std::map<std::uint64_t, std::size_t> m;
        for (std::size_t i = 0; i < v.nodes.size(); ++i) {
            m[v.nodes[i].id] = i;
        }
        return m;
    }

    template<typename Helper>
    std::set<std::pair<std::string, std::string>> edge_tags(const Helper &h, std::uint64_t id) {
        std::set<std::pair<std::string, std::string>> out;
        for (const auto &t : h.edge_tags(id)) {
            out.insert(h.tag(t));
        }
        return out;
    }

    template<bool Streets>
    void simplify(vh::context &ctx, vh::rng &r) {
        net::plan plan;
        const int pool = r.chance(0.5) ? 0 : static_cast<int>(r.range(1, 6));
        if constexpr (Streets) {
            plan = net::random_street_plan(r, static_cast<int>(r.range(1, ctx.thorough ? 14 : 7)), 8,
                    r.chance(0.3) ? 0.0 : r.chance(0.3) ? 1.0 : 0.6, pool);
        } else {
            net::plan_options o;
            o.min_nodes = 1;
            o.max_nodes = ctx.thorough ? 20 : 10;
            o.edge_factor = r.real(0.3, 1.5);
            o.two_way = r.chance(0.3) ? 1.0 : r.real();
            o.edge_id_pool = pool;
            o.bend = r.real();
            plan = net::random_plan(r, o);
        }
        // directions of one road may have their own ids
        if (r.chance(0.2)) {
            for (auto &e : plan.edges) {
                if (r.chance(0.3)) {
                    e.id = static_cast<std::uint64_t>(r.range(1, 4));
                }
            }
        }
        for (const auto &e : plan.edges) {
            if (not plan.edge_tags.contains(e.id) and r.chance(0.8)) {
                net::tags t;
                if (r.chance(0.8)) {
                    t.emplace_back("highway", r.chance(0.5) ? "primary" : "secondary");
                }
                if (r.chance(0.5)) {
                    t.emplace_back("maxspeed", std::to_string(r.range(3, 5) * 10));
                }
                if (not t.empty()) {
                    plan.edge_tags[e.id] = t;
                }
            }
        }
        const bool complete = r.chance(0.5);
        auto n = net::build(plan);
        const auto before = net::observe(plan);
        n.graph_helper().simplify(n, complete);
        const auto after = net::observe(n);
        const auto what = [&] {
            std::ostringstream o;
            o << (complete ? " complete " : " keeping tags apart ") << plan.str() << " became";
            for (const auto &e : after.edges) {
                o << " #" << e.id << ":" << after.nodes[e.s].id << ">" << after.nodes[e.t].id << "(" << e.line.size() << ")";
            }
            return o.str();
        };
        const auto ids_before = by_id(before), ids_after = by_id(after);
        for (const auto &[id, i] : ids_after) {
            ctx.require(ids_before.contains(id) and before.nodes[ids_before.at(id)].p == after.nodes[i].p,
                    "simplified-node", [&] { return vh::cat("node ", id, what()); });
        }
        ctx.require(ids_after.size() == after.nodes.size(), "simplified-node", what);
        for (const auto &e : after.edges) {
            ctx.require(e.line.size() >= 2 and e.line.front() == after.nodes[e.s].p and e.line.back() == after.nodes[e.t].p,
                    "simplified-ends", [&] { return vh::cat("road ", e.id, " does not end at its nodes", what()); });
        }
        ctx.require(proper_segments(before) == proper_segments(after), "simplified-geometry", what);
        for (const auto &[id, i] : ids_after) {
            const auto d0 = net::distances(before, ids_before.at(id)), d1 = net::distances(after, i);
            for (const auto &[id2, j] : ids_after) {
                ctx.require(vh::close(d0[ids_before.at(id2)], d1[j], 1e-9, 1e-9), "simplified-distance", [&] {
                    return vh::cat("from ", id, " to ", id2, " was ", d0[ids_before.at(id2)], " is ", d1[j], what());
                });
                ctx.stat("distances_compared");
            }
        }
        // an isolated node stays, a node with roads only disappears when it is passed through
        std::map<std::uint64_t, std::pair<int, int>> degree;
        for (const auto &e : before.edges) {
            ++degree[before.nodes[e.s].id].second;
            ++degree[before.nodes[e.t].id].first;
        }
        for (const auto &[id, i] : ids_before) {
            if (not ids_after.contains(id)) {
                const auto d = degree[id];
                ctx.require(d.first == d.second and (d.first == 1 or d.first == 2), "simplified-junction",
                        [&] { return vh::cat("node ", id, " was removed", what()); });
                ctx.stat("nodes_joined");
            }
        }
        // tags and ids
        std::map<segment_key, std::vector<const net::view::v_edge *>> pieces;
        for (const auto &e : before.edges) {
            for (std::size_t i = 1; i < e.line.size(); ++i) {
                pieces[{e.line[i - 1], e.line[i]}].push_back(&e);
            }
        }
        for (const auto &e : after.edges) {
            const auto have = edge_tags(n.tag_helper(), e.id);
            for (std::size_t i = 1; i < e.line.size(); ++i) {
                if (e.line[i - 1] == e.line[i]) {
                    continue;
                }
                bool ok = false;
                for (const auto *p : pieces.at({e.line[i - 1], e.line[i]})) {
                    const auto t = plan.edge_tags.find(p->id);
                    bool subset = complete or p->id == e.id;
                    if (t != plan.edge_tags.end()) {
                        for (const auto &kv : t->second) {
                            subset = subset and have.contains(kv);
                        }
                    }
                    if (not complete) {
                        subset = subset and have.size() == (t == plan.edge_tags.end() ? 0 : t->second.size());
                    }
                    ok = ok or subset;
                }
                ctx.require(ok, "simplified-tags", [&] { return vh::cat("road ", e.id, what()); });
                ctx.stat("pieces_with_tags_checked");
            }
        }
        // nothing is left to join
        if (complete) {
            std::map<std::size_t, std::vector<const net::view::v_edge *>> in, out;
            for (const auto &e : after.edges) {
                in[e.t].push_back(&e);
                out[e.s].push_back(&e);
            }
            for (std::size_t v = 0; v < after.nodes.size(); ++v) {
                const auto &iv = in[v], &ov = out[v];
                const bool one_way = iv.size() == 1 and ov.size() == 1 and iv[0]->s != ov[0]->t;
                const auto reversed = [](const auto *a, const auto *b) {
                    return a->s == b->t and net::reversed(a->line) == b->line;
                };
                const bool two_way = iv.size() == 2 and ov.size() == 2 and iv[0]->s != iv[1]->s and iv[0]->s != v and
                                     iv[1]->s != v and
                                     ((reversed(iv[0], ov[0]) and reversed(iv[1], ov[1])) or
                                         (reversed(iv[0], ov[1]) and reversed(iv[1], ov[0])));
                ctx.require(not one_way and not two_way, "simplified-incomplete",
                        [&] { return vh::cat("node ", after.nodes[v].id, " could be joined", what()); });
            }
        }
        std::size_t index = 0;
        const auto vv = n.graph().vertices_view();
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
            ctx.require(n.graph().vertex_index(it) == index++, "simplified-index", what);
        }
        // the final form has the same roads with their true lengths
        const auto baked = net::observe(net::bake(n));
        ctx.require(baked.edges.size() == after.edges.size() and baked.nodes.size() == after.nodes.size(),
                "simplified-compact", what);
        for (const auto &e : baked.edges) {
            ctx.require(vh::close(e.len, net::length(e.line)), "simplified-length", [&] { return vh::cat("road ", e.id, what()); });
        }
        ctx.stat(complete ? "complete_simplifications" : "tag_keeping_simplifications");
        ctx.stat("two_way_or_ring_kept", after.edges.size() > 1);
        if (after.edges.size() != before.edges.size()) {
            ctx.observe(plan.fingerprint() ^ complete);
        }
        ctx.sample(plan.str());
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {
            {"streets", simplify<true>, 20000, 400000},
            {"random", simplify<false>, 20000, 400000},
    });
}
