// Monitor: a network built in files of any size equals the one built in memory, after every preparation step.
#define VERIF_QUARANTINE_MAIN
#include "mapped_plan.hpp"

namespace {

    struct steps {
        bool simplify, complete, unconnected, nodes, nodes_simplify, edges;
    };

    using namespace mapped;

#ifdef VERIF_MAP
    // map objects for the map data handler, with the positions around which roads lie
    struct map_data {
        osmium::memory::Buffer buffer{1024 * 64, osmium::memory::Buffer::auto_grow::yes};
        net::plan around;
        std::string text;
    };

    void random_map(vh::context &ctx, vh::rng &r, map_data &m) {
        const auto n = r.range(1, ctx.thorough ? 120 : 50);
        const bool shuffled = r.chance(0.2);
        std::vector<std::int64_t> ids;
        for (std::int64_t i = 0; i < n; ++i) {
            ids.push_back(10 + 3 * i);
        }
        if (shuffled) {
            for (std::size_t i = ids.size(); i > 1; --i) {
                std::swap(ids[i - 1], ids[static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(i) - 1))]);
            }
        }
        const auto add_tags = [&](auto &builder, const net::tags &tags) {
            osmium::builder::TagListBuilder b{builder};
            for (const auto &[k, v] : tags) {
                b.add_tag(k, v);
            }
        };
        for (const auto id : ids) {
            const double lon = static_cast<double>(r.range(0, 2000)) / 1000.0, lat = 40 + static_cast<double>(r.range(0, 2000)) / 1000.0;
            {
                osmium::builder::NodeBuilder b{m.buffer};
                b.set_id(id).set_version(1).set_visible(true);
                b.set_location(osmium::Location{lon, lat});
                b.set_user("");
                if (r.chance(0.3)) {
                    add_tags(b, random_tags(r));
                }
            }
            m.buffer.commit();
            m.around.nodes.push_back({static_cast<std::uint64_t>(id), {lon, lat}});
        }
        const auto ways = r.range(0, n);
        for (std::int64_t w = 0; w < ways; ++w) {
            {
                osmium::builder::WayBuilder b{m.buffer};
                b.set_id(1 + w).set_version(1).set_visible(true);
                b.set_user("");
                auto tags = random_tags(r);
                tags.emplace_back("highway", r.chance(0.5) ? "primary" : "residential");
                if (r.chance(0.3)) {
                    tags.emplace_back("oneway", "yes");
                }
                add_tags(b, tags);
                osmium::builder::WayNodeListBuilder l{b};
                const auto k = r.range(2, r.chance(0.1) ? 60 : 8);
                for (std::int64_t i = 0; i < k; ++i) {
                    l.add_node_ref(osmium::NodeRef{r.chance(0.02) ? 999999 : r.pick(ids)});
                }
            }
            m.buffer.commit();
        }
        m.text = vh::cat(n, " nodes, ", ways, " ways", shuffled ? ", nodes not in order" : "");
    }

    template<typename CS, typename Types>
    void import_map(mapped::import_network<CS, Types> &n, const map_data &m, const std::filesystem::path &dir, vh::rng &r) {
        using helper = mapped::osm_helper<CS, Types>;
        using import_type = mapped::import_network<CS, Types>;
        using point_type = typename import_type::point_type;
        map_matching_2::io::network::osm_handler<typename import_type::graph_helper_type, helper> handler{
                n.graph_helper(), map_matching_2::geometry::point_reprojector_variant{
                        map_matching_2::geometry::point_reprojector_type<point_type, point_type>{
                                map_matching_2::geometry::srs_transform{
                                        map_matching_2::geometry::srs{4326, map_matching_2::geometry::SRS::CS_GEOGRAPHIC},
                                        4326, map_matching_2::geometry::SRS::CS_GEOGRAPHIC}}},
                mapped::make_osm_helper<CS, Types>(dir, r)};
        osmium::TagsFilter query{false}, filter{true}, oneway{false}, reverse{false};
        query.add_rule(true, "highway");
        oneway.add_rule(true, "oneway", "yes");
        handler.set_tags_filters(query, filter, oneway, reverse);
        for (const auto &item : m.buffer) {
            if (item.type() == osmium::item_type::node) {
                handler.node(static_cast<const osmium::Node &>(item));
            } else if (item.type() == osmium::item_type::way) {
                handler.way(static_cast<const osmium::Way &>(item));
            }
        }
    }

#endif

    void compare(vh::context &ctx, const mapped::contents &got, const mapped::contents &expect, const char *step,
            const std::string &what) {
        ctx.require(got == expect, vh::cat("differs-after-", step),
                [&] { return vh::cat(expect.difference(got), " ", what); });
        ctx.stat(vh::cat("compared_after_", step));
    }

    // the same import and preparation in memory and in files
    template<typename CS, typename Import>
    void prepare(vh::context &ctx, vh::rng &r, const Import &import_into, const net::plan &around, const steps &s,
            const std::string &what) {
        const std::filesystem::path dir{ctx.scratch};
        const auto before = quarantine::unmapped.load();
        vh::rng r2 = r;
        auto a = mapped::make_import<CS, mapped::memory>(dir, r2);
        auto b = mapped::make_import<CS, mapped::file>(dir, r);
        import_into(a);
        import_into(b);
        compare(ctx, mapped::read(b), mapped::read(a), "import", what);
        if (s.simplify) {
            a.graph_helper().simplify(a, s.complete);
            b.graph_helper().simplify(b, s.complete);
            compare(ctx, mapped::read(b), mapped::read(a), "simplify", what);
        }
        if (s.unconnected) {
            a.remove_unconnected_components();
            b.remove_unconnected_components();
            compare(ctx, mapped::read(b), mapped::read(a), "pruning", what);
        }
        if (s.nodes) {
            a.graph_helper().remove_duplicate_nodes(a, s.nodes_simplify, s.complete);
            b.graph_helper().remove_duplicate_nodes(b, s.nodes_simplify, s.complete);
            compare(ctx, mapped::read(b), mapped::read(a), "duplicate-nodes", what);
        }
        if (s.edges) {
            a.remove_duplicate_edges();
            b.remove_duplicate_edges();
            compare(ctx, mapped::read(b), mapped::read(a), "duplicate-edges", what);
        }
        const auto raw = mapped::read(a);
        auto na = mapped::make_network<CS, mapped::memory>(dir, r2, false);
        auto nb = mapped::make_network<CS, mapped::file>(dir, r, false);
        na.graph_helper().from_adjacency_list(a.graph_helper(), a.tag_helper());
        nb.graph_helper().from_adjacency_list(b.graph_helper(), b.tag_helper());
        const auto expect = mapped::read(na);
        compare(ctx, mapped::read(nb), expect, "compact", what);
        ctx.require(expect.nodes == raw.nodes and expect.edges.size() == raw.edges.size(), "compact-lost",
                [&] { return vh::cat(expect.difference(raw), " ", what); });
        na.build_spatial_indices();
        nb.build_spatial_indices();
        compare(ctx, mapped::read(nb), expect, "index", what);
        for (int i = 0; i < 12; ++i) {
            const auto c = around.nodes.empty() ? net::xy{0, 0} : r.pick(around.nodes).p;
            const auto radius = r.real(0, 1) * (i % 2 ? 5 : 0.3);
            const auto k = static_cast<std::size_t>(r.range(1, 12));
            const auto x = mapped::search(na, c, radius, k), y = mapped::search(nb, c, radius, k);
            ctx.require(x == y, "search-differs", [&] {
                return vh::cat("around ", c.first, " ", c.second, " ", x.segments.size(), "/", y.segments.size(),
                        " segments, ", x.points.size(), "/", y.points.size(), " nodes ", what);
            });
            ctx.stat("searches_compared");
            ctx.stat("search_results", static_cast<long long>(x.segments.size() + x.points.size()));
        }
        ctx.stat("file_remappings", static_cast<long long>(quarantine::unmapped.load() - before));
        ctx.stat("edges_compared", static_cast<long long>(expect.edges.size()));
        ctx.nontrivial = not expect.edges.empty();
        ctx.observe(vh::hash_str(vh::cat(what, s.simplify, s.complete, s.unconnected, s.edges)));
    }

    steps random_steps(vh::rng &r) {
        return {r.chance(0.7), r.chance(0.5), r.chance(0.3), r.chance(0.4), r.chance(0.7), r.chance(0.2)};
    }

#ifndef VERIF_MAP
    void plan(vh::context &ctx, vh::rng &r) {
        const auto p = random_plan(ctx, r);
        const bool with_tags = r.chance(0.7);
        const auto s = random_steps(r);
        mapped::import_network<MM2_CARTESIAN, mapped::memory> tags;
        net::set_tags(tags, p);
        prepare<MM2_CARTESIAN>(ctx, r, [&]<typename Network>(Network &n) {
            using types = std::conditional_t<std::same_as<Network, mapped::import_network<MM2_CARTESIAN, mapped::file>>,
                mapped::file, mapped::memory>;
            import<MM2_CARTESIAN, types>(n, p, with_tags ? &tags : nullptr);
        }, p, s, ctx.thorough or p.edges.size() > 60 ? vh::cat("fingerprint ", p.fingerprint()) : p.str());
        quarantine::release();
    }

#else
    void map(vh::context &ctx, vh::rng &r) {
        map_data m;
        random_map(ctx, r, m);
        const auto s = random_steps(r);
        vh::rng q{static_cast<std::uint64_t>(r.range(0, 1000000))};
        prepare<MM2_GEOGRAPHIC>(ctx, r, [&]<typename Network>(Network &n) {
            using types = std::conditional_t<std::same_as<Network, mapped::import_network<MM2_GEOGRAPHIC, mapped::file>>,
                mapped::file, mapped::memory>;
            import_map<MM2_GEOGRAPHIC, types>(n, m, ctx.scratch, q);
        }, m.around, s, m.text);
        quarantine::release();
    }

#endif

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {
#ifdef VERIF_MAP
            {"map", map, 4000, 100000, 60},
#else
            {"plan", plan, 4000, 100000, 60},
#endif
    });
}
