// Monitor: damaged track files are matched or refused, by the real reading and matching of the program.
#include "matching.hpp"
#include "mangled_files.hpp"

#include "app/match.hpp"

namespace {

    using namespace matching;
    namespace app = map_matching_2::app;
    using mangled::input;
    using strings = std::vector<std::string>;

    void damaged(vh::context &ctx, vh::rng &r, const std::string &kind) {
        const auto p = random_roads(ctx, r, true, r.real(1, 50), 0);
        std::unique_ptr<N> n{new N(bake(p))};
        constexpr bool plane = std::same_as<CS, MM2_CARTESIAN>;
        const bool other = (kind == "csv" or kind == "gpx" or kind == "console") and r.chance(0.3); // tracks in other coordinates
        const auto reference = [&](const xy &q) {
            const auto at = placed(q);
            if (not other) { return at; }
            const double s = 111319.49079327358;
            return plane ? xy{at.first / s, at.second / s} : xy{at.first * s, std::log(std::tan(M_PI / 4 + at.second * M_PI / 360)) * 180 / M_PI * s};
        };
        std::vector<mangled::track> tracks;
        for (auto k = r.range(1, 3); k > 0; --k) {
            tracks.emplace_back();
            for (const auto &q : random_track(r, p, r.range(1, 6))) { tracks.back().push_back(reference(q)); }
        }

        strings words{"map_matching_2", "--match", "--input", ctx.scratch.string(), "--output", (ctx.scratch / "out").string(), "--filename", "result.csv", "--quiet"};
        const auto add = [&](const std::string &name, const std::string &value) {
            words.push_back("--" + name);
            words.push_back(value);
        };
        if constexpr (plane) {
            add("network-srs", "3857");
            if (other) {
                add("tracks-transform-srs", "3857");
            } else {
                add("tracks-srs", "3857");
            }
        } else if (other) {
            add("tracks-srs", "3857");
            add("tracks-transform-srs", "4326");
        }
        add("threads", r.chance(0.5) ? "1" : "3");
        add("model", r.pick(strings{"value-iteration", "viterbi"}));
        if (r.chance(0.3)) { add("candidate-search", r.pick(strings{"circle", "nearest", "next"})); }
        if (r.chance(0.5)) { add("radius", mangled::number(r.real(0.5, 300))); }
        if (r.chance(0.3)) { add("simplify-track", "off"); }
        if (r.chance(0.3)) { add("median-merge", "off"); }
        if (r.chance(0.2)) { add("filter-duplicates", "off"); }
        if (r.chance(0.2)) { add("skip-errors", "off"); }
        if (r.chance(0.2)) { add("within-edge-turns", "on"); }
        if (r.chance(0.2)) { add("export-edges", "on"); }
        if (r.chance(0.3)) { add("columns", "id,aborted,duration,track,prepared,match,track_length,prepared_length,match_length,edge_ids"); }
        if (r.chance(0.3)) { add("candidates", "candidates.csv"); }
        if (r.chance(0.1)) { words.push_back("--console"); }

        std::vector<std::pair<std::string, std::string>> files;
        std::string console;
        const auto file = [&](const std::string &name, const std::string &text) {
            files.emplace_back((ctx.scratch / name).string(), text);
            add("tracks", files.back().first);
        };
        const auto options = [&](const input &in) { words.insert(words.end(), in.words.begin(), in.words.end()); };
        if (kind == "csv") {
            const auto in = mangled::csv_input(r, tracks, "");
            options(in);
            file("tracks.csv", in.text);
            if (r.chance(0.2)) { file("more.csv", in.text); }
        } else if (kind == "gpx") {
            const auto in = mangled::gpx_input(r, tracks, "");
            options(in);
            file("tracks.gpx", in.text);
        } else if (kind == "console") {
            words.push_back("--read-line");
            for (const auto &t : tracks) {
                const auto c = mangled::coordinates(t);
                if (r.chance(0.4)) {
                    console += "LINESTRING" + c + "\n";
                } else if (r.chance(0.4)) {
                    console += "MULTILINESTRING(" + c + "," + c + ")\n";
                } else {
                    std::string line;
                    for (const auto &q : t) { line += (line.empty() ? "POINT(" : ",POINT(") + mangled::number(q.first) + " " + mangled::number(q.second) + ")"; }
                    console += line + "\n";
                }
            }
        } else if (kind == "list") {
            add("tracks-file-type", "list");
            const bool columns = r.chance(0.5);
            add("delimiter", columns ? ";" : "");
            if (columns) { add("id", "1"); }
            std::string text;
            // a road is left at most in a few ways, so that no list has many solutions
            for (auto k = r.range(1, 6); k > 0 and not p.edges.empty(); --k) {
                const auto &graph = n->graph();
                const auto edges = graph.edges_view();
                auto skip = r.range(0, static_cast<std::int64_t>(edges.size()) - 1);
                auto it = edges.begin();
                while (skip-- > 0) { it = edges.next(it); }
                text += (columns ? "a;" : "") + std::to_string(graph.get_edge_data(it).id) + (columns ? ";b" : "") + "\n";
            }
            if (p.edges.empty()) { text = columns ? "a;1;b\n" : "1\n"; }
            file("edges.txt", text);
        } else {
            add("tracks-file-type", "seattle");
            std::string roads{"Edge ID\tFrom Node ID\tTo Node ID\tTwo Way\tSpeed (m/s)\tVertex Count\tLINESTRING()\n"}, truth{"Edge ID\tTraversed From to To\n"};
            std::size_t id = 1;
            for (const auto &e : p.edges) {
                mangled::track line;
                for (const auto &q : e.line) { line.push_back(placed(q)); }
                const bool both = r.chance(0.7);
                roads += vh::cat(id, "\t", e.s, "\t", e.t, "\t", both ? 1 : 0, "\t3.5\t", line.size(), "\tLINESTRING", mangled::coordinates(line), "\n");
                if (r.chance(0.4)) { truth += vh::cat(id, "\t", both and r.chance(0.5) ? 0 : 1, "\n"); }
                ++id;
            }
            file("road_network.txt", roads);
            file("ground_truth_route.txt", truth);
        }
        mangled::runs<app::match_data>(ctx, r, kind, words, files, console, app::MODE::MATCH, [](auto &data) { return app::options_match(data); }, [&](const app::match_data &data) {
            auto matcher = app::_start_matcher(n, data);
            app::_read_tracks(matcher, data);
            app::_join_matcher(matcher);
        });
    }

}

int main(int argc, char **argv) {
    map_matching_2::geometry::disable_cache();
    const auto of = [](const std::string &kind) { return [kind](vh::context &ctx, vh::rng &r) { damaged(ctx, r, kind); }; };
    return vh::run(argc, argv, {
            {"csv", of("csv"), 400, 20000},
            {"gpx", of("gpx"), 300, 20000},
            {"console", of("console"), 300, 20000},
            {"list", of("list"), 200, 20000},
            {"seattle", of("seattle"), 200, 20000},
    });
}
