// Monitor: the compact graph built from graphs reached by random edit histories, read back through every accessor.
#include <boost/unordered/unordered_flat_set.hpp>

#include "graph_session.hpp"

namespace {

    template<typename Csr>
    std::string compare(Csr &csr, const gm::model &m) {
        const Csr &c = csr;
        if (c.vertices_view().size() != m.vertices.size() or csr.vertices_view().size() != m.vertices.size()) {
            return vh::cat("vertex count ", c.vertices_view().size(), " expected ", m.vertices.size());
        }
        if (c.edges_view().size() != m.edges.size()) {
            return vh::cat("edge count ", c.edges_view().size(), " expected ", m.edges.size());
        }
        std::size_t edge_no = 0, v_no = 0;
        const auto vv = c.vertices_view();
        const auto ev = c.edges_view();
        for (std::size_t v = 0; v < vv.size(); ++v, ++v_no) {
            const auto &mv = m.vertices[v_no];
            if (v != v_no or c.vertex_index(v) != v_no) {
                return vh::cat("vertex ", v_no, " has index ", c.vertex_index(v));
            }
            if (c.get_vertex_data(v) != mv.data or csr.get_vertex_data(v) != mv.data or vv[v].get() != mv.data) {
                return vh::cat("vertex ", v_no, " data ", c.get_vertex_data(v), " expected ", mv.data);
            }
            // an undirected edge is stored once, at its source
            const auto expect = m.out(mv.id, false);
            const auto out = c.out_edges_view(v);
            if (out.size() != expect.size() or c.out_degree(v) != expect.size() or out.empty() != expect.empty()) {
                return vh::cat("vertex ", v_no, " out degree ", c.out_degree(v), " expected ", expect.size());
            }
            std::size_t k = 0;
            for (auto e = out.begin(); e != out.end(); e = out.next(e), ++k, ++edge_no) {
                const auto &me = *expect[k];
                if (e != edge_no or c.edge_index(e) != edge_no) {
                    return vh::cat("edge ", k, " of vertex ", v_no, " has index ", c.edge_index(e), " expected ", edge_no);
                }
                if (c.get_edge_data(e) != me.data or csr.get_edge_data(e) != me.data or
                    c.get_edge(e).get() != me.data or out[e].get() != me.data or
                    ev[e].get() != me.data) {
                    return vh::cat("edge ", k, " of vertex ", v_no, " is ", c.get_edge_data(e), " expected ", me.data);
                }
                if (c.source(e) != v_no or csr.source(e) != v_no or c.target(e) != m.pos(me.target) or
                    csr.target(e) != m.pos(me.target)) {
                    return vh::cat("edge ", me.data, " runs ", c.source(e), ">", c.target(e), " expected ", v_no, ">",
                            m.pos(me.target));
                }
            }
            if (k != expect.size()) {
                return vh::cat("vertex ", v_no, " iterates ", k, " edges");
            }
            if (k > 0) {
                if (out.front().get() != expect.front()->data) {
                    return vh::cat("vertex ", v_no, " first outgoing edge wrong");
                }
                // backwards
                auto e = out.end();
                for (std::size_t j = k; j-- > 0;) {
                    e = out.prev(e);
                    if (c.get_edge_data(e) != expect[j]->data) {
                        return vh::cat("vertex ", v_no, " backwards edge ", j, " wrong");
                    }
                }
            }
        }
        if (v_no != m.vertices.size() or edge_no != m.edges.size()) {
            return vh::cat("iterated ", v_no, " vertices and ", edge_no, " edges");
        }
        return {};
    }

    // data that converts with an allocator, as the network's nodes and edges do between storages
    struct heavy {
        using allocator_type = std::allocator<void>;
        std::vector<long> values;
        bool with_allocator{false};

        heavy() = default;

        explicit heavy(const long &v) : values{v, v + 1} {}

        explicit heavy(const long &v, const allocator_type &) : values{v, v + 1}, with_allocator{true} {}

        friend bool operator!=(const heavy &h, long v) {
            return h.values != std::vector<long>{v, v + 1};
        }

        friend std::ostream &operator<<(std::ostream &o, const heavy &h) {
            return o << (h.values.empty() ? -1 : h.values[0]);
        }
    };

    template<typename Dir>
    void compact(vh::context &ctx, vh::rng &r) {
        session<graph_t<Dir>> s{ctx, r};
        const long steps = r.chance(0.05) ? 0 : r.range(1, ctx.thorough ? 120 : 40);
        const double edges = r.real(0.3, 0.85);
        for (long step = 0; step < steps; ++step) {
            const double p = r.real();
            if (s.m.vertices.empty() or p > edges + 0.1) {
                s.add_vertex();
            } else if (p < edges) {
                s.add_edge(false);
            } else if (r.chance(0.4)) {
                s.remove_edge();
            } else if (r.chance(0.5)) {
                s.clear_vertex();
            } else {
                s.remove_vertex();
            }
        }
        s.graph.reindex();
        s.indices_valid = true;
        s.check("reindex");

        using csr_t = graph::compressed_sparse_row<std::vector, std::vector, graph::directional, long, long>;
        csr_t csr;
        csr.from_adjacency_list(s.graph);
        auto check = [&](auto &c, const char *what) {
            const auto d = compare(c, s.m);
            ctx.require(d.empty(), vh::cat("compact-", what), [&] { return d + " after " + s.history; });
        };
        check(csr, "converted");

        using heavy_t = graph::compressed_sparse_row<std::vector, std::vector, graph::directional, heavy, heavy>;
        heavy_t h;
        h.from_adjacency_list(s.graph);
        check(h, "converted-data");

        csr_t copied{csr};
        check(copied, "copied");
        check(csr, "copied-from");
        csr_t assigned;
        assigned = copied;
        check(assigned, "assigned");
        csr_t moved{std::move(copied)};
        check(moved, "moved");
        csr_t move_assigned;
        move_assigned = std::move(assigned);
        check(move_assigned, "move-assigned");
        // the same compact graph again, after the source graph changed
        for (long k = 0; k < 3; ++k) {
            if (s.m.vertices.empty() or r.chance(0.5)) {
                s.add_vertex();
            } else {
                s.add_edge(false);
            }
        }
        s.graph.reindex();
        csr_t again;
        again.from_adjacency_list(s.graph);
        check(again, "reconverted");
        move_assigned = again;
        check(move_assigned, "replaced");
        // converting leaves the original alone
        s.check("after-conversion");

        using bare_t = graph::compressed_sparse_row<std::vector, std::vector, graph::directional, void, void>;
        bare_t bare;
        bare.from_adjacency_list(s.graph);
        const bare_t &b = bare;
        ctx.require(b.edges_view().size() == s.m.edges.size() and b.vertices_view().size() == s.m.vertices.size(),
                "compact-without-data", [&] { return s.history; });
        std::size_t e = 0;
        for (std::size_t v = 0; v < s.m.vertices.size(); ++v) {
            for (const auto *me : s.m.out(s.m.vertices[v].id, false)) {
                ctx.require(b.source(e) == v and b.target(e) == s.m.pos(me->target), "compact-without-data",
                        [&] { return s.history; });
                ++e;
            }
        }

        long isolated = 0, loops = 0;
        for (const auto &v : s.m.vertices) {
            isolated += s.m.out(v.id, true).empty();
        }
        for (const auto &me : s.m.edges) {
            loops += me.source == me.target;
        }
        ctx.stat("vertices_compared", static_cast<long long>(s.m.vertices.size()));
        ctx.stat("edges_compared", static_cast<long long>(s.m.edges.size()));
        ctx.stat("isolated_vertices", isolated);
        ctx.stat("loops", loops);
        ctx.stat("trailing_isolated", not s.m.vertices.empty() and s.m.out(s.m.vertices.back().id, true).empty());
        ctx.stat("empty_graphs", steps == 0);
        ctx.observe(s.m.fingerprint());
        ctx.sample(s.m.str());
    }

    // graphs kept in vectors convert as well
    template<typename Dir>
    void compact_vector(vh::context &ctx, vh::rng &r) {
        session<vector_graph_t<Dir>> s{ctx, r};
        for (long i = r.range(1, 10); i > 0; --i) {
            s.add_vertex();
        }
        for (long i = r.range(0, 25); i > 0; --i) {
            r.chance(0.15) ? s.add_vertex() : s.add_edge(false);
        }
        graph::compressed_sparse_row<std::vector, std::vector, graph::directional, long, long> csr;
        csr.from_adjacency_list(s.graph);
        const auto d = compare(csr, s.m);
        ctx.require(d.empty(), "compact-from-vector", [&] { return d + " after " + s.history; });
        ctx.stat("edges_compared", static_cast<long long>(s.m.edges.size()));
        ctx.observe(s.m.fingerprint());
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {
            {"compact-directional", compact<graph::directional>, 20000, 400000},
            {"compact-bidirectional", compact<graph::bidirectional>, 20000, 400000},
            {"compact-undirected", compact<graph::undirected>, 20000, 400000},
            {"compact-vector-directional", compact_vector<graph::directional>, 4000, 80000},
            {"compact-vector-bidirectional", compact_vector<graph::bidirectional>, 4000, 80000},
            {"compact-vector-undirected", compact_vector<graph::undirected>, 4000, 80000},
    });
}
