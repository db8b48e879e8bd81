// Monitor: random histories of graph mutations against a reference model, with injected allocation failures.
#include "graph_session.hpp"

template<typename Dir>
void mutate(vh::context &ctx, vh::rng &r) {
    session<graph_t<Dir>> s{ctx, r};
    const long steps = r.range(5, 60);
    const bool faults = r.chance(0.5);
    for (long i = 0; i < r.range(1, 6); ++i) {
        s.add_vertex();
    }
    for (long step = 0; step < steps; ++step) {
        if (s.m.vertices.empty()) {
            s.add_vertex();
        }
        const double p = r.real();
        std::string op;
        if (p < 0.15) {
            op = "add_vertex";
            s.add_vertex();
            // a vertex added after removals gets its final index on reindex
        } else if (p < 0.6) {
            op = "add_edge";
            s.add_edge(faults and r.chance(0.3));
        } else if (p < 0.78) {
            op = "remove_edge";
            s.remove_edge();
        } else if (p < 0.86) {
            op = "clear_vertex";
            s.clear_vertex();
        } else if (p < 0.94) {
            op = "remove_vertex";
            s.remove_vertex();
        } else {
            op = "reindex";
            s.history += "; reindex";
            s.graph.reindex();
            s.indices_valid = true;
            s.check("reindex");
            if (r.chance(0.5)) {
                op = "copy";
                graph_t<Dir> copy{s.graph};
                s.graph.clear_vertex(s.vd.empty() ? copy.vertices_view().begin() : s.vd.front());
                const auto d = gm::diff(copy, s.m, true);
                ctx.require(d.empty(), "graph-copy", [&] { return d + " after " + s.history; });
                if (r.chance(0.5)) {
                    s.graph = copy;
                } else {
                    s.graph = std::move(copy);
                }
                s.collect();
                s.indices_valid = true;
                ctx.stat("copies_compared");
            }
        }
        s.check(op);
        ctx.stat("operations");
        ctx.observe(s.m.fingerprint());
    }
    ctx.sample(s.history + " => " + s.m.str());
}

template<typename Dir>
void grow_only(vh::context &ctx, vh::rng &r) {
    session<vector_graph_t<Dir>> s{ctx, r};
    for (long i = 0; i < r.range(1, 12); ++i) {
        s.add_vertex();
    }
    for (long i = 0; i < r.range(0, 40); ++i) {
        if (r.chance(0.1)) {
            s.add_vertex();
        }
        s.add_edge(false);
        s.check("add_edge");
    }
    vector_graph_t<Dir> copy{s.graph};
    const auto d = gm::diff(copy, s.m, true);
    ctx.require(d.empty(), "graph-copy", [&] { return d + " after " + s.history; });
    vector_graph_t<Dir> assigned;
    assigned = copy;
    const auto d2 = gm::diff(assigned, s.m, true);
    ctx.require(d2.empty(), "graph-assign", [&] { return d2 + " after " + s.history; });
    ctx.observe(s.m.fingerprint());
    ctx.sample(s.m.str());
}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {
            {"mutate-directional", mutate<graph::directional>, 20000, 400000},
            {"mutate-bidirectional", mutate<graph::bidirectional>, 20000, 400000},
            {"mutate-undirected", mutate<graph::undirected>, 20000, 400000},
            {"grow-vector-directional", grow_only<graph::directional>, 4000, 80000},
            {"grow-vector-bidirectional", grow_only<graph::bidirectional>, 4000, 80000},
            {"grow-vector-undirected", grow_only<graph::undirected>, 4000, 80000},
    });
}
