// Reference model of a multigraph with ordered adjacency, and a comparison against map_matching_2::graph containers.
#ifndef VERIF_GRAPH_MODEL_HPP
#define VERIF_GRAPH_MODEL_HPP

#include <list>
#include <new>
#include <vector>

#include "graph/adjacency_list.hpp"
#include "graph/compressed_sparse_row.hpp"

#include "vh.hpp"

namespace gm {

    // allocator that can be told to fail after a number of allocations
    inline long fail_countdown = -1;
    inline long allocations = 0;

    template<typename T>
    struct faulty_allocator {
        using value_type = T;

        faulty_allocator() = default;

        template<typename U>
        faulty_allocator(const faulty_allocator<U> &) {}

        T *allocate(std::size_t n) {
            ++allocations;
            if (fail_countdown == 0) {
                throw std::bad_alloc{};
            }
            if (fail_countdown > 0) {
                --fail_countdown;
            }
            return std::allocator<T>{}.allocate(n);
        }

        void deallocate(T *p, std::size_t n) { std::allocator<T>{}.deallocate(p, n); }

        template<typename U>
        bool operator==(const faulty_allocator<U> &) const { return true; }
    };

    // allocator for the void graph type parameter
    template<>
    struct faulty_allocator<void> {
        using value_type = void;

        faulty_allocator() = default;

        template<typename U>
        faulty_allocator(const faulty_allocator<U> &) {}

        template<typename U>
        bool operator==(const faulty_allocator<U> &) const { return true; }
    };

    struct model_edge {
        long id;
        long source, target;
        long data;
    };

    struct model_vertex {
        long id;
        long data;
    };

    struct model {
        std::vector<model_vertex> vertices;
        std::vector<model_edge> edges;

        [[nodiscard]] std::size_t pos(long vertex_id) const {
            for (std::size_t i = 0; i < vertices.size(); ++i) {
                if (vertices[i].id == vertex_id) {
                    return i;
                }
            }
            return static_cast<std::size_t>(-1);
        }

        [[nodiscard]] std::vector<const model_edge *> out(long v, bool undirected) const {
            std::vector<const model_edge *> result;
            for (const auto &e : edges) {
                if (e.source == v or (undirected and e.target == v)) {
                    result.push_back(&e);
                }
            }
            return result;
        }

        [[nodiscard]] std::vector<const model_edge *> in(long v) const {
            std::vector<const model_edge *> result;
            for (const auto &e : edges) {
                if (e.target == v) {
                    result.push_back(&e);
                }
            }
            return result;
        }

        [[nodiscard]] std::uint64_t fingerprint() const {
            std::uint64_t h = vertices.size() * 1000003 + edges.size();
            for (const auto &e : edges) {
                h = vh::mix(h ^ (pos(e.source) * 8191 + pos(e.target)));
            }
            return h;
        }

        [[nodiscard]] std::string str() const {
            std::ostringstream o;
            o << "V=" << vertices.size() << " E=[";
            for (const auto &e : edges) {
                o << " " << pos(e.source) << ">" << pos(e.target);
            }
            o << " ]";
            return o.str();
        }
    };

    // full observable comparison; data of a vertex/edge identifies it
    template<typename Graph>
    std::string diff(const Graph &graph, const model &m, bool indices_valid) {
        constexpr bool undirected = Graph::is_undirected_v;
        const auto vertices_v = graph.vertices_view();
        const auto edges_v = graph.edges_view();
        if (vertices_v.size() != m.vertices.size()) {
            return vh::cat("vertex count ", vertices_v.size(), " expected ", m.vertices.size());
        }
        if (edges_v.size() != m.edges.size()) {
            return vh::cat("edge count ", edges_v.size(), " expected ", m.edges.size());
        }
        auto vid = [&](const auto &desc) { return graph.get_vertex_data(desc); };
        std::size_t i = 0;
        for (auto it = vertices_v.begin(); it != vertices_v.end(); it = vertices_v.next(it), ++i) {
            const auto &mv = m.vertices[i];
            if (graph.get_vertex_data(it) != mv.data) {
                return vh::cat("vertex ", i, " data ", graph.get_vertex_data(it), " expected ", mv.data);
            }
            if (indices_valid and graph.vertex_index(it) != i) {
                return vh::cat("vertex ", i, " index ", graph.vertex_index(it));
            }
            const auto expect = m.out(mv.id, undirected);
            const auto out_v = graph.out_edges_view(it);
            if (out_v.size() != expect.size() or graph.out_degree(it) != expect.size()) {
                return vh::cat("vertex ", i, " out degree ", out_v.size(), " expected ", expect.size());
            }
            std::size_t j = 0;
            for (auto oe = out_v.begin(); oe != out_v.end(); oe = out_v.next(oe), ++j) {
                const auto ed = out_v[oe];
                const auto &me = *expect[j];
                if (graph.get_edge_data(ed) != me.data or
                    vid(graph.source(ed)) != m.vertices[m.pos(me.source)].data or
                    vid(graph.target(ed)) != m.vertices[m.pos(me.target)].data) {
                    return vh::cat("vertex ", i, " out edge ", j, " is ", graph.get_edge_data(ed), " expected ",
                            me.data);
                }
                if (graph.is_self_loop(ed) != (me.source == me.target)) {
                    return vh::cat("edge ", me.data, " self loop flag wrong");
                }
            }
            if constexpr (Graph::is_bidirectional_v) {
                const auto expect_in = m.in(mv.id);
                const auto in_v = graph.in_edges_view(it);
                if (in_v.size() != expect_in.size() or graph.in_degree(it) != expect_in.size() or
                    graph.degree(it) != expect.size() + expect_in.size()) {
                    return vh::cat("vertex ", i, " in degree ", in_v.size(), " expected ", expect_in.size());
                }
                std::size_t k = 0;
                for (auto ie = in_v.begin(); ie != in_v.end(); ie = in_v.next(ie), ++k) {
                    const auto ed = in_v[ie];
                    if (graph.get_edge_data(ed) != expect_in[k]->data) {
                        return vh::cat("vertex ", i, " in edge ", k, " is ", graph.get_edge_data(ed), " expected ",
                                expect_in[k]->data);
                    }
                }
            }
        }
        std::size_t j = 0;
        for (auto it = edges_v.begin(); it != edges_v.end(); it = edges_v.next(it), ++j) {
            const auto &me = m.edges[j];
            if (graph.get_edge_data(it) != me.data or vid(graph.source(it)) != m.vertices[m.pos(me.source)].data or
                vid(graph.target(it)) != m.vertices[m.pos(me.target)].data) {
                return vh::cat("edge ", j, " is ", graph.get_edge_data(it), " expected ", me.data);
            }
            if (indices_valid and graph.edge_index(it) != j) {
                return vh::cat("edge ", j, " index ", graph.edge_index(it));
            }
        }
        return {};
    }

}

#endif
