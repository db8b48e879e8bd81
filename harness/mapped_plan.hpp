// Random networks described independently of where they are stored.
#ifndef VERIF_MAPPED_PLAN_HPP
#define VERIF_MAPPED_PLAN_HPP

#include "mapped.hpp"

namespace mapped {

    inline std::string random_text(vh::rng &r) {
        std::string s;
        const auto n = r.chance(0.05) ? r.range(100, 600) : r.range(0, 12);
        for (std::int64_t i = 0; i < n; ++i) {
            s += static_cast<char>(r.range('a', 'z'));
        }
        return s;
    }

    inline net::tags random_tags(vh::rng &r) {
        net::tags t;
        const auto n = r.range(0, 4);
        for (std::int64_t i = 0; i < n; ++i) {
            t.emplace_back(r.chance(0.7) ? vh::cat("k", r.range(0, 4)) : random_text(r),
                    r.chance(0.6) ? vh::cat("v", r.range(0, 9)) : random_text(r));
        }
        return t;
    }

    inline net::plan random_plan(vh::context &ctx, vh::rng &r) {
        net::plan p;
        if (r.chance(0.5)) {
            p = net::random_street_plan(r, static_cast<int>(r.range(2, ctx.thorough ? 60 : 25)), static_cast<int>(r.range(4, 40)),
                    r.real(), r.chance(0.5) ? 0 : 6);
        } else {
            net::plan_options o;
            o.max_nodes = ctx.thorough ? 150 : 50;
            o.grid = static_cast<int>(r.range(4, 60));
            o.coincident = r.chance(0.5) ? 0.2 : 0.0;
            o.edge_factor = r.real(0.5, 2.5);
            o.two_way = r.real();
            o.edge_id_pool = r.chance(0.3) ? 5 : 0;
            p = net::random_plan(r, o);
        }
        if (r.chance(0.3) and not p.edges.empty()) {
            // a long road, larger than a small file
            auto &e = p.edges[static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(p.edges.size()) - 1))];
            std::vector<net::xy> line{e.line.front()};
            const auto n = r.range(50, 1500);
            for (std::int64_t i = 0; i < n; ++i) {
                line.push_back({static_cast<double>(i) + 0.5, r.real(0, 50)});
            }
            line.push_back(e.line.back());
            e.line = line;
        }
        for (const auto &v : p.nodes) {
            if (r.chance(0.3)) {
                p.node_tags[v.id] = random_tags(r);
            }
        }
        for (const auto &e : p.edges) {
            if (r.chance(0.6)) {
                p.edge_tags[e.id] = random_tags(r);
            }
        }
        return p;
    }

    template<typename CS, typename Types>
    void import(mapped::import_network<CS, Types> &n, const net::plan &p,
            const mapped::import_network<CS, mapped::memory> *tags_from) {
        // in-memory nodes and edges for transportation, as the importers use them
        using transport = mapped::import_network<CS, mapped::memory>;
        using node_type = typename transport::vertex_data_type;
        using point_type = typename transport::point_type;
        using edge_type = map_matching_2::geometry::network::edge_type<point_type>;
        using rich_line_type = typename edge_type::rich_line_type;
        using line_type = typename map_matching_2::geometry::rich_line_traits<rich_line_type>::line_type;
        std::vector<std::size_t> idx;
        auto &h = n.graph_helper();
        for (const auto &v : p.nodes) {
            const node_type d{v.id, point_type{v.p.first, v.p.second}};
            idx.push_back(tags_from ? h.add_vertex_with_index_mapping(d, tags_from->tag_helper())
                                    : h.add_vertex_with_index_mapping(d));
        }
        for (const auto &e : p.edges) {
            const edge_type d{e.id, rich_line_type{net::to_line<line_type>(e.line)}};
            if (tags_from) {
                (void) h.add_edge(idx[e.s], idx[e.t], d, tags_from->tag_helper());
            } else {
                (void) h.add_edge(idx[e.s], idx[e.t], d);
            }
        }
    }
}

#endif
