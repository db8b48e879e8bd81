// Monitor: importing lists of edges gives the lines of the listed edges through the network.
#include "common/vh.hpp"
#include "net.hpp"

#include "io/track/edges_list_importer.hpp"

#include "geometry/algorithm/reproject.hpp"

#include <filesystem>
#include <fstream>

namespace {

    namespace g = map_matching_2::geometry;
    namespace io = map_matching_2::io;

    using line = std::vector<net::xy>;

    struct delivery {
        std::string id;
        std::vector<line> parts;
    };

    struct collector {
        using multi_track_variant_type = g::track::multi_track_variant_type;
        std::vector<delivery> delivered;

        void pass(multi_track_variant_type variant) {
            std::visit([&](const auto &track) {
                delivery d{track.id, {}};
                for (const auto &part : track.multi_rich_line.rich_lines()) { d.parts.push_back(net::to_xys(part.line())); }
                delivered.push_back(std::move(d));
            }, variant);
        }
    };

    using steps = std::vector<std::vector<const net::edge *>>; // the edges with the listed ids

    // the longest connected way through the first steps
    std::size_t connected(const steps &s, std::size_t from) {
        std::set<net::xy> ends;
        std::size_t i = from;
        for (; i < s.size(); ++i) {
            std::set<net::xy> next;
            for (const auto *e : s[i]) {
                if (i == from or ends.contains(e->line.front())) { next.insert(e->line.back()); }
            }
            if (next.empty()) { break; }
            ends = std::move(next);
        }
        return i - from;
    }

    bool is_way(const steps &s, std::size_t from, std::size_t to, const line &l) {
        std::set<std::size_t> at{0};
        for (std::size_t i = from; i < to; ++i) {
            std::set<std::size_t> next;
            for (const auto p : at) {
                for (const auto *e : s[i]) {
                    if (p + e->line.size() <= l.size() and std::equal(e->line.begin(), e->line.end(), l.begin() + static_cast<std::ptrdiff_t>(p))) {
                        next.insert(p + e->line.size() - 1);
                    }
                }
            }
            at = std::move(next);
        }
        return at.contains(l.size() - 1);
    }

    void lists(vh::context &ctx, vh::rng &r) {
        auto plan = net::random_street_plan(r, static_cast<int>(r.range(2, 8)), 10, r.real(), 0);
        if (plan.edges.empty()) { return; }
        // ids of directed edges, of roads, or of several pieces of a road
        const auto ids = r.range(0, 2);
        std::uint64_t next = r.chance(0.2) ? 4000000000000ull : 1;
        for (std::size_t i = 0; i < plan.edges.size(); ++i) {
            auto &e = plan.edges[i];
            if (ids == 0) {
                e.id = next++;
            } else if (ids == 1) {
                const bool back = i > 0 and plan.edges[i - 1].s == e.t and plan.edges[i - 1].t == e.s;
                e.id = back ? plan.edges[i - 1].id : next++;
            } else {
                e.id = next + static_cast<std::uint64_t>(r.range(0, static_cast<std::int64_t>(plan.edges.size()) / 2)); // like the pieces of a way
            }
        }
        std::erase_if(plan.edges, [](const net::edge &e) { return e.line.front() == e.line.back(); });
        if (plan.edges.empty()) { return; }
        auto built = net::build<net::import_network>(plan);
        auto network = net::bake<net::network>(built);

        std::map<std::uint64_t, std::vector<const net::edge *>> of;
        for (const auto &e : plan.edges) { of[e.id].push_back(&e); }

        std::vector<std::string> delimiters{",", ";", "\\t", "\\s", ""};
        const auto delimiter = r.pick(delimiters);
        const char separator = delimiter == "\\t" ? '\t' : delimiter == "\\s" ? ' ' : delimiter.empty() ? '\0' : delimiter[0];
        const auto columns = static_cast<std::size_t>(separator ? r.range(1, 4) : 1);
        std::vector<std::string> used; // columns that contain ids, in the order they are read
        if (not separator) {
            used = {"0"};
        } else {
            std::vector<std::size_t> all(columns);
            for (std::size_t i = 0; i < columns; ++i) { all[i] = i; }
            r.shuffle(all);
            all.resize(static_cast<std::size_t>(r.range(1, static_cast<std::int64_t>(columns))));
            for (const auto c : all) { used.push_back(std::to_string(c)); }
            if (used.size() == 1 and used[0] == "0" and r.chance(0.5)) { used = {"id"}; }
        }
        const auto skip = static_cast<std::size_t>(r.chance(0.3) ? r.range(1, 3) : 0);

        struct expectation {
            std::string id;
            steps s;
        };
        std::vector<expectation> expected;
        std::vector<std::string> files;
        std::string all_text;
        const auto count = r.range(1, 3);
        for (std::int64_t f = 0; f < count; ++f) {
            // a way through the network with gaps
            std::vector<std::uint64_t> listed;
            const auto *at = &r.pick(plan.edges);
            listed.push_back(at->id);
            for (auto n = r.range(0, 14); n > 0; --n) {
                std::vector<const net::edge *> following;
                for (const auto &e : plan.edges) {
                    if (e.line.front() == at->line.back()) { following.push_back(&e); }
                }
                at = following.empty() or r.chance(0.1) ? &r.pick(plan.edges) : r.pick(following);
                listed.push_back(at->id);
                if (r.chance(0.1)) { listed.push_back(at->id); }
            }
            if (r.chance(0.1)) { listed.clear(); }
            bool unknown = false;
            if (r.chance(0.15) and not listed.empty()) {
                listed[static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(listed.size()) - 1))] = 77777777;
                unknown = true;
            }
            while (listed.size() % used.size() != 0) { listed.push_back(listed.back()); }

            expectation x{std::to_string(f), {}};
            for (std::size_t i = 0; i < listed.size(); ++i) {
                if (i == 0 or listed[i] != listed[i - 1]) { x.s.push_back(of[listed[i]]); }
            }
            if (unknown) { ctx.stat("unknown_ids"); }
            if (listed.empty()) { ctx.stat("empty_lists"); }
            std::string text, end = r.chance(0.2) ? "\r\n" : "\n";
            for (std::size_t i = 0; i < skip; ++i) { text += vh::cat("head", separator ? std::string{separator} : " ", "line", end); }
            for (std::size_t i = 0; i < listed.size(); i += used.size()) {
                std::vector<std::string> cells(columns, "-5");
                for (std::size_t c = 0; c < used.size(); ++c) { cells[used[c] == "id" ? 0 : std::stoul(used[c])] = std::to_string(listed[i + c]); }
                for (std::size_t c = 0; c < columns; ++c) { text += (c ? std::string{separator} : "") + cells[c]; }
                text += end;
            }
            files.push_back(vh::cat(ctx.scratch.string(), "/", f, ".list"));
            std::ofstream{files.back(), std::ios::binary} << text;
            all_text += vh::cat("\n--- ", f, "\n", text);
            if (not unknown and not listed.empty()) { expected.push_back(std::move(x)); }
            if (skip) { ctx.stat("skipped_lines"); }
        }
        if (used.size() > 1) { ctx.stat("several_columns"); }
        ctx.stat(separator ? "columns" : "whole_lines");

        const g::srs_transform transform{{3857, g::SRS::CS_CARTESIAN}, 3857, g::SRS::CS_CARTESIAN};
        const auto reprojector = g::create_point_reprojector(transform);
        collector c;
        const auto say = [&] {
            std::string o = vh::cat(plan.str(), "\ndelimiter ", delimiter, " skip ", skip, " columns");
            for (const auto &u : used) { o += " " + u; }
            o += all_text + "\ndelivered:";
            for (const auto &d : c.delivered) {
                o += "\n  [" + d.id + "]";
                for (const auto &l : d.parts) {
                    o += " (";
                    for (const auto &p : l) { o += vh::cat(p.first, " ", p.second, ", "); }
                    o += ")";
                }
            }
            return o;
        };
        using graph_type = std::remove_cvref_t<decltype(network.graph())>;
        std::ostringstream quiet;
        auto *const err = std::cerr.rdbuf(quiet.rdbuf());
        try {
            io::track::edges_list_importer<collector, graph_type> importer{files, c, transform, reprojector, network.graph(), delimiter, used, skip};
            importer.read();
        } catch (const std::exception &e) {
            std::cerr.rdbuf(err);
            ctx.fail("import of lists fails", vh::cat(e.what(), "\n", say()));
        }
        std::cerr.rdbuf(err);
        for (const auto &f : files) { std::filesystem::remove(f); }

        ctx.require(c.delivered.size() == expected.size(), "not every list is delivered once", say);
        for (std::size_t i = 0; i < expected.size(); ++i) {
            const auto &d = c.delivered[i];
            const auto &s = expected[i].s;
            ctx.require(d.id == expected[i].id, "list is delivered under another id", say);
            std::size_t part = 0, from = 0;
            while (from < s.size()) {
                const auto n = connected(s, from);
                ctx.require(part < d.parts.size(), "connected edges are missing", say);
                ctx.require(not d.parts[part].empty() and is_way(s, from, from + n, d.parts[part]), "part is not the line of the connected edges",
                        [&] { return vh::cat("list ", i, " part ", part, " steps ", from, "-", from + n, "\n", say()); });
                from += n;
                ++part;
                ctx.stat("connected_parts");
                ctx.stat("edges", n);
            }
            ctx.require(part == d.parts.size(), "there is more than the listed edges", say);
            if (part > 1) { ctx.stat("lists_with_gaps"); }
            if (ids == 1 and std::any_of(s.begin(), s.end(), [](const auto &x) { return x.size() > 1; })) { ctx.stat("ids_of_both_directions"); }
            if (ids == 2 and std::any_of(s.begin(), s.end(), [](const auto &x) { return x.size() > 1; })) { ctx.stat("ids_of_several_pieces"); }
            ctx.stat("lists");
        }
        ctx.observe(vh::hash_str(all_text + plan.str()));
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"lists", lists, 8000, 150000}});
}
