// Random edit histories on a graph, mirrored on the reference model.
#ifndef VERIF_GRAPH_SESSION_HPP
#define VERIF_GRAPH_SESSION_HPP

#include "graph_model.hpp"

using namespace map_matching_2;

template<typename Dir>
using graph_t = graph::adjacency_list<std::list, std::list, Dir, long, long, std::list, gm::faulty_allocator<void>>;

template<typename Dir>
using vector_graph_t = graph::adjacency_list<std::vector, std::vector, Dir, long, long, std::vector>;

template<typename Graph>
struct session {
    vh::context &ctx;
    vh::rng &r;
    Graph graph;
    gm::model m;
    std::vector<typename Graph::vertex_descriptor> vd; // same order as m.vertices
    std::vector<typename Graph::edge_descriptor> ed; // same order as m.edges
    long next_id{0};
    std::string history;
    bool indices_valid{true};

    session(vh::context &ctx, vh::rng &r) : ctx{ctx}, r{r} {}

    void check(const std::string &op) {
        const auto d = gm::diff(graph, m, indices_valid);
        if (not d.empty()) {
            ctx.fail("graph-state:" + op, d + " after " + history);
        }
    }

    void add_vertex() {
        const long id = next_id++;
        history += vh::cat("; add_vertex ", id);
        vd.push_back(graph.add_vertex(id * 10));
        m.vertices.push_back({id, id * 10});
    }

    std::size_t any_vertex() { return static_cast<std::size_t>(r.range(0, static_cast<long>(m.vertices.size()) - 1)); }

    void add_edge(bool fault) {
        const auto s = any_vertex(), t = r.chance(0.15) ? s : any_vertex();
        const long id = next_id++;
        history += vh::cat("; add_edge ", id, " (", m.vertices[s].id, "->", m.vertices[t].id, ")");
        if (fault) {
            // fail every allocation of the operation in turn, the graph must look untouched after each failure
            for (long k = 0; k < 8; ++k) {
                gm::fail_countdown = k;
                bool thrown = false;
                try {
                    const auto e = graph.add_edge(vd[s], vd[t], id * 10);
                    gm::fail_countdown = -1;
                    ed.push_back(e);
                } catch (const std::bad_alloc &) {
                    thrown = true;
                }
                gm::fail_countdown = -1;
                if (not thrown) {
                    m.edges.push_back({id, m.vertices[s].id, m.vertices[t].id, id * 10});
                    break;
                }
                ctx.stat("allocation_failures_injected");
                check("failed-allocation");
            }
        } else {
            ed.push_back(graph.add_edge(vd[s], vd[t], id * 10));
            m.edges.push_back({id, m.vertices[s].id, m.vertices[t].id, id * 10});
        }
    }

    void drop_edge_at(std::size_t i) {
        m.edges.erase(m.edges.begin() + static_cast<long>(i));
        ed.erase(ed.begin() + static_cast<long>(i));
        indices_valid = false;
    }

    template<typename P>
    void drop_edges(P p) {
        for (std::size_t i = m.edges.size(); i-- > 0;) {
            if (p(m.edges[i])) {
                drop_edge_at(i);
            }
        }
    }

    void remove_edge() {
        if (m.edges.empty()) {
            return;
        }
        const auto i = static_cast<std::size_t>(r.range(0, static_cast<long>(m.edges.size()) - 1));
        const auto e = m.edges[i];
        if (r.chance(0.5)) {
            history += vh::cat("; remove_edge ", e.id);
            if (r.chance(0.5)) {
                // the descriptor as it is stored in the adjacency of the source vertex
                const auto out_v = graph.out_edges_view(vd[m.pos(e.source)]);
                for (auto it = out_v.begin(); it != out_v.end(); it = out_v.next(it)) {
                    if (graph.is_same_edge(out_v[it], ed[i])) {
                        const auto copy = out_v[it];
                        graph.remove_edge(copy);
                        break;
                    }
                }
            } else {
                graph.remove_edge(ed[i]);
            }
            drop_edge_at(i);
            ctx.stat("removed_edges");
        } else {
            history += vh::cat("; remove_edge (", e.source, "->", e.target, ")");
            graph.remove_edge(vd[m.pos(e.source)], vd[m.pos(e.target)]);
            drop_edges([&](const auto &o) { return o.source == e.source and o.target == e.target; });
            ctx.stat("removed_parallel_edges");
        }
    }

    void clear_vertex() {
        const auto v = any_vertex();
        const long id = m.vertices[v].id;
        history += vh::cat("; clear_vertex ", id);
        graph.clear_vertex(vd[v]);
        drop_edges([&](const auto &o) { return o.source == id or o.target == id; });
        ctx.stat("cleared_vertices");
    }

    void remove_vertex() {
        const auto v = any_vertex();
        const long id = m.vertices[v].id;
        const auto out = m.out(id, Graph::is_undirected_v), in = m.in(id);
        bool connected = not out.empty();
        if (not connected and not in.empty()) {
            if constexpr (Graph::is_bidirectional_v) {
                connected = true;
            } else {
                // a purely directional graph does not know incoming edges, the caller has to clear the vertex first
                clear_of(v);
            }
        }
        history += vh::cat("; remove_vertex ", id, connected ? " (connected)" : "");
        bool thrown = false;
        try {
            graph.remove_vertex(vd[v]);
        } catch (const std::runtime_error &) {
            thrown = true;
        }
        ctx.require(thrown == connected, "remove-vertex-of-connected", [&] {
            return vh::cat("vertex with ", out.size(), " outgoing and ", in.size(), " incoming edges: ",
                    thrown ? "refused" : "removed", " after ", history);
        });
        if (not thrown) {
            m.vertices.erase(m.vertices.begin() + static_cast<long>(v));
            vd.erase(vd.begin() + static_cast<long>(v));
            indices_valid = false;
            ctx.stat("removed_vertices");
        } else {
            ctx.stat("refused_removals");
        }
    }

    void clear_of(std::size_t v) {
        const long id = m.vertices[v].id;
        history += vh::cat("; clear_vertex ", id);
        graph.clear_vertex(vd[v]);
        drop_edges([&](const auto &o) { return o.source == id or o.target == id; });
    }

    void collect() {
        vd.clear();
        ed.clear();
        auto vv = graph.vertices_view();
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
            vd.push_back(it);
        }
        auto ev = graph.edges_view();
        for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
            ed.push_back(it);
        }
    }
};

#endif
