// Monitor: damaged command lines and configuration files are used as stated or reported, by the real entry point of the program.
#include "mangle.hpp"
#include "watchdog.hpp"

#include "app/global.hpp"
#include "app/settings.hpp"

#include "geometry/algorithm/reproject.hpp"
#include "io/csv_importer.hpp"

#include <regex>

namespace {

    struct seen_type {
        int runs{};
        map_matching_2::app::prepare_data prepare;
        map_matching_2::app::match_data match;
        map_matching_2::app::compare_data compare;
    };
    seen_type *seen{};

}

namespace map_matching_2::app {

    namespace po = boost::program_options;

    // the modes end where they would start to work

    int prepare(int argc, char *argv[]) {
        prepare_data data;
        auto all = options_prepare(data);
        po::variables_map vm;
        if (not process(argc, argv, vm, all, MODE::PREPARE)) { return 1; }
        data.correct(vm);
        [[maybe_unused]] const auto forward = geometry::create_point_reprojector(data.srs.srs_transform);
        [[maybe_unused]] const auto back = geometry::create_point_reprojector(geometry::compute_next_srs_transform(data.srs.srs_transform, 4326, geometry::SRS::CS_GEOGRAPHIC));
        ++seen->runs;
        seen->prepare = data;
        return 0;
    }

    int match_cli(int argc, char *argv[]) {
        match_data data;
        auto all = options_match(data);
        po::variables_map vm;
        if (not process(argc, argv, vm, all, MODE::MATCH)) { return 1; }
        data.correct(vm);
        [[maybe_unused]] const auto settings = _match_settings(data);
        [[maybe_unused]] const auto csv = _csv_tracks_settings(data.csv);
        [[maybe_unused]] const auto forward = geometry::create_point_reprojector(data.srs_tracks.srs_transform);
        ++seen->runs;
        seen->match = data;
        return 0;
    }

    int compare(int argc, char *argv[]) {
        compare_data data;
        auto all = options_compare(data);
        po::variables_map vm;
        if (not process(argc, argv, vm, all, MODE::COMPARE)) { return 1; }
        data.correct(vm);
        [[maybe_unused]] const auto settings = _compare_settings(data);
        [[maybe_unused]] const auto csv = _csv_settings(data.csv_match), csv2 = _csv_settings(data.csv_compare);
        [[maybe_unused]] const auto a = geometry::create_point_reprojector(data.srs_match.srs_transform), b = geometry::create_point_reprojector(data.srs_compare.srs_transform);
        ++seen->runs;
        seen->compare = data;
        return 0;
    }

}

namespace {

    namespace app = map_matching_2::app;
    using strings = std::vector<std::string>;

    struct option {
        std::string name, value; // without value: a switch
    };

    std::string yes_no(vh::rng &r) { return r.pick(strings{"on", "off", "true", "false", "1", "0", "yes", "no"}); }
    std::string real(vh::rng &r) { return vh::cat(r.chance(0.3) ? 0 : r.real(0, 100)); }
    std::string whole(vh::rng &r) { return std::to_string(r.range(1, 50)); }
    std::string word(vh::rng &r) { return r.pick(strings{"id", "x", "time_2", "name", "a-b", "Breite"}); }

    void systems(vh::rng &r, std::vector<option> &out, const std::string &prefix, const std::string &transform) {
        const int c = static_cast<int>(r.range(0, 3));
        if (c == 0) { return; }
        out.push_back({prefix + "srs", c == 1 ? "4326" : "3857"});
        out.push_back({prefix + "srs-type", c == 1 ? r.pick(strings{"geographic", "spherical-equatorial"}) : "cartesian"});
        if (not transform.empty() and r.chance(0.5)) {
            out.push_back({transform, c == 1 ? "3857" : "4326"});
            if (r.chance(0.5)) { out.push_back({transform + "-type", c == 1 ? "cartesian" : "geographic"}); }
        }
    }

    std::string filter(vh::rng &r) {
        std::string out = r.chance(0.5) ? "true" : "false";
        for (auto n = r.range(0, r.chance(0.05) ? 3000 : 4); n > 0; --n) { out += vh::cat("|", r.chance(0.5) ? "true" : "false", ",key", r.chance(0.5) ? "=value" : ""); }
        return out;
    }

    std::vector<option> prepare_options(vh::rng &r) {
        std::vector<option> out{{"prepare", ""}, {"file", r.pick(strings{"map.osm.pbf", "a b.osm", "nodes.csv"})}, {"output", "out"}};
        if (r.chance(0.5)) { out.push_back({"format", r.pick(strings{"osm", "arc-node", "seattle", "melbourne", "giscup"})}); }
        if (r.chance(0.4)) {
            out.push_back({"osm-profile", "manual"});
            for (const auto *f : {"osm-query", "osm-filter", "osm-oneway", "osm-oneway-reverse"}) {
                if (r.chance(0.6)) { out.push_back({f, filter(r)}); }
            }
        }
        systems(r, out, "", "transform-srs");
        if (r.chance(0.3)) { out.push_back({"simplify", r.pick(strings{"none", "all", "osm-aware"})}); }
        for (const auto *f : {"remove-unconnected", "remove-duplicate-nodes", "remove-duplicate-edges", "memory-mapping", "memory-mapped-graph", "memory-mapped-indices", "memory-mapped-tags",
                              "memory-mapped-preparation", "memory-mapped-graph-import", "memory-mapped-tags-import", "memory-mapped-index-build", "memory-mapped-osm-vertices", "memory-mapped-osm-tags"}) {
            if (r.chance(0.15)) { out.push_back({f, yes_no(r)}); }
        }
        for (const auto *f : {"export-nodes-csv-file", "export-edges-csv-file", "export-network-osm-file"}) {
            if (r.chance(0.15)) { out.push_back({f, "export.csv"}); }
        }
        if (r.chance(0.2)) { out.push_back({"initial-file-size", std::to_string(r.range(1, 1 << 30))}); }
        return out;
    }

    void csv_options(vh::rng &r, std::vector<option> &out, const std::string &prefix) {
        if (r.chance(0.3)) { out.push_back({prefix + "delimiter", r.pick(strings{",", ";", "|", "\\t"})}); }
        if (r.chance(0.2)) { out.push_back({prefix + "x", word(r)}); }
        if (r.chance(0.2)) { out.push_back({prefix + "y", word(r)}); }
        if (r.chance(0.2)) { out.push_back({prefix + "geometry", word(r)}); }
        if (r.chance(0.2)) { out.push_back({prefix + "id-aggregator", r.pick(strings{"-", "_", "::"})}); }
    }

    std::vector<option> match_options(vh::rng &r) {
        std::vector<option> out{{"match", ""}, {"input", "."}, {"output", "out"}, {"tracks", r.pick(strings{"t.csv", "t.GPX", "a.list"})}};
        systems(r, out, "network-", "");
        systems(r, out, "tracks-", "tracks-transform-srs");
        csv_options(r, out, "");
        if (r.chance(0.3)) { out.push_back({"model", r.pick(strings{"value-iteration", "policy-iteration", "q-learning", "viterbi"})}); }
        if (r.chance(0.3)) { out.push_back({"candidate-search", r.pick(strings{"circle", "nearest", "combined", "next"})}); }
        for (const auto *f : {"max-time", "simplify-track-distance-tolerance", "median-merge-distance-tolerance", "routing-max-distance-factor", "radius", "radius-upper-limit", "radius-lower-limit",
                              "discount", "mdp-distance-factor", "mdp-length-factor", "mdp-azimuth-factor", "mdp-direction-factor", "mdp-turn-factor", "hmm-distance-factor", "hmm-length-factor",
                              "hmm-azimuth-factor", "hmm-direction-factor", "hmm-turn-factor", "threshold", "learning-rate", "epsilon", "early-stop-factor"}) {
            if (r.chance(0.1)) { out.push_back({f, real(r)}); }
        }
        for (const auto *f : {"filter-duplicates", "simplify-track", "median-merge", "adaptive-median-merge", "adaptive-radius", "skip-errors", "export-edges", "join-merges", "memory-mapping"}) {
            if (r.chance(0.1)) { out.push_back({f, yes_no(r)}); }
        }
        for (const auto *f : {"k-nearest", "max-episodes", "threads"}) {
            if (r.chance(0.2)) { out.push_back({f, whole(r)}); }
        }
        if (r.chance(0.2)) { out.push_back({"state-size", r.chance(0.5) ? "2" : "3"}); }
        for (const auto *f : {"console", "a-star", "verbose", "quiet", "read-line"}) {
            if (r.chance(0.1)) { out.push_back({f, ""}); }
        }
        if (r.chance(0.2)) { out.push_back({"time-format", "%F %T"}); }
        if (r.chance(0.2)) { out.push_back({"columns", r.pick(strings{"id,duration,match", "edge_ids", "id"})}); }
        return out;
    }

    std::vector<option> compare_options(vh::rng &r) {
        std::vector<option> out{{"compare", ""}, {"output", "out"}, {"match-tracks", "m.csv"}, {"compare-tracks", "c.csv"}};
        systems(r, out, "match-", "match-transform-srs");
        systems(r, out, "compare-", "compare-transform-srs");
        csv_options(r, out, "match-");
        csv_options(r, out, "compare-");
        for (const auto *f : {"compare-simplify-distance-tolerance", "compare-simplify-reverse-tolerance", "compare-adoption-distance-tolerance", "compare-split-distance-tolerance",
                              "compare-split-direction-tolerance"}) {
            if (r.chance(0.2)) { out.push_back({f, real(r)}); }
        }
        if (r.chance(0.1)) { out.push_back({"ignore-non-existent", ""}); }
        return out;
    }

    strings words(const std::vector<option> &options) {
        strings out;
        for (const auto &o : options) {
            out.push_back("--" + o.name);
            if (not o.value.empty()) { out.push_back(o.value); }
        }
        return out;
    }

    std::string config(const std::vector<option> &options) {
        std::string out;
        for (const auto &o : options) { out += o.name + "=" + (o.value.empty() ? "1" : o.value) + "\n"; }
        return out;
    }

    struct outcome {
        int code;
        std::string out, log;
    };

    outcome run(const strings &w) {
        strings all{"map_matching_2"};
        for (auto word : w) {
            // arguments end at their first zero
            if (const auto zero = word.find('\0'); zero != std::string::npos) { word.resize(zero); }
            all.push_back(std::move(word));
        }
        mangle::arguments args{std::move(all)};
        mangle::silence quiet;
        const int code = app::mode(args.count(), args.values());
        return {code, quiet.out.str(), quiet.log.str()};
    }

    std::string say(const strings &w, const std::string &file) {
        std::string out;
        for (const auto &word : w) { out += " [" + mangle::say(word) + "]"; }
        return out + (file.empty() ? "" : " file:\n" + mangle::say(file));
    }

    void judge(vh::context &ctx, const strings &w, const std::string &file, const outcome &o) {
        const auto text = [&] { return vh::cat("exit ", o.code, say(w, file), "\n", o.log); };
        const bool shown = o.out.find("Available Options") != std::string::npos or o.out.find("Version:") != std::string::npos;
        if (seen->runs == 1) {
            ctx.require(o.code == 0, "options-used-with-error", text);
            ctx.stat("options_used");
        } else {
            ctx.require(seen->runs == 0, "options-used-twice", text);
            const bool reported = o.log.find("Error:") != std::string::npos;
            const bool server = std::find(w.begin(), w.end(), "--server") != w.end() or file.find("server") != std::string::npos;
            ctx.require(reported or shown or server, "options-error-not-reported", text);
            ctx.stat(reported ? "errors_reported" : "help_shown");
        }
    }

    void options(vh::context &ctx, vh::rng &r) {
        vh::watchdog dog{60};
        seen_type s;
        seen = &s;
        const auto mode = r.range(0, 2);
        auto all = mode == 0 ? prepare_options(r) : mode == 1 ? match_options(r) : compare_options(r);
        const auto path = ctx.scratch / "options.conf";
        if (r.chance(0.3)) { r.shuffle(all); }
        std::string file;
        strings w;
        const bool by_file = r.chance(0.4);
        if (by_file) {
            // some of them in a file
            const auto n = static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(all.size())));
            const std::vector<option> first{all.begin(), all.begin() + static_cast<std::ptrdiff_t>(n)}, second{all.begin() + static_cast<std::ptrdiff_t>(n), all.end()};
            w = words(first);
            file = config(second);
            w.push_back("--config");
            w.push_back(path.string());
        } else {
            w = words(all);
        }

        const auto write = [&] {
            std::ofstream out{path, std::ios::binary};
            out << file;
        };
        const auto unread = by_file;
        write();
        {
            // undamaged
            const auto o = run(w);
            const auto text = [&] { return vh::cat("exit ", o.code, say(w, file), "\n", o.log); };
            ctx.require(o.code == 0 and s.runs == 1, "right-options-refused", text);
            const auto value = [&](const std::string &name) {
                std::string out;
                for (const auto &o : all) { out = o.name == name ? o.value : out; }
                return out;
            };
            if (mode == 0) {
                const auto &d = s.prepare;
                ctx.require(d.network.files == strings{value("file")} and d.network.output == "out" and (value("format").empty() or d.network.format == value("format")) and
                            (value("osm-query").empty() or d.osm_import.query == value("osm-query")) and (value("simplify").empty() or d.process.simplify == value("simplify")), "other-options", text);
            } else if (mode == 1) {
                const auto &d = s.match;
                ctx.require(d.input.input == "." and d.tracks.files == strings{value("tracks")} and (value("model").empty() or d.model.model == value("model")) and
                            (value("delimiter").empty() or d.csv.delimiter == value("delimiter")) and (value("discount").empty() or vh::close(d.model.discount, std::stod(value("discount")), 1e-5)), "other-options", text);
            } else {
                const auto &d = s.compare;
                ctx.require(d.match.files == strings{value("match-tracks")} and d.comparison.files == strings{value("compare-tracks")}, "other-options", text);
            }
            s.runs = 0;
            ctx.stat("undamaged");
        }

        for (int k = 0; k < 6; ++k) {
            auto damaged = w;
            const auto kept = file;
            for (auto n = r.range(1, 3); n > 0; --n) {
                if (unread and r.chance(0.6)) {
                    mangle::some(ctx, r, file);
                    ctx.stat("damaged_files");
                    continue;
                }
                ctx.stat("damaged_arguments");
                const auto at = static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(damaged.size())));
                if (damaged.empty() or at == damaged.size()) {
                    damaged.push_back(r.pick(strings{"--", "-", "--help", "--version", "-i", "-o", "--server", "--match", "--prepare", "--compare", "--config", "-c/", "--nonsense", "--threads=-1", "@file", "=", "---x",
                                                     "--config=/dev/null", "--console", "--read-line", "--threads=99999999999999999999", "--k-nearest=-1", "--tracks="}));
                    continue;
                }
                switch (r.range(0, 4)) {
                    case 0: damaged.erase(damaged.begin() + static_cast<std::ptrdiff_t>(at)); break;
                    case 1: damaged.insert(damaged.begin() + static_cast<std::ptrdiff_t>(at), damaged[at]); break;
                    case 2: damaged[at] = r.chance(0.5) ? r.pick(mangle::numbers) : r.pick(mangle::texts); break;
                    case 3: std::swap(damaged[at], r.pick(damaged)); break;
                    default: mangle::once(ctx, r, damaged[at]); break;
                }
            }
            write();
            const auto o = run(damaged);
            judge(ctx, damaged, file, o);
            s.runs = 0;
            file = kept;
            std::string text;
            for (const auto &word : damaged) { text += word + "\n"; }
            ctx.observe(vh::hash_str(text + file));
        }
        if (ctx.index < 3) { ctx.sample(say(w, file)); }
    }

    // filters are accepted exactly when they match the documented pattern
    void filters(vh::context &ctx, vh::rng &r) {
        std::filesystem::remove("options.conf");
        static const std::regex pattern{"^(true|false)(\\|(true|false),[^,=]+(=[^,|]+)?)*$"};
        for (int k = 0; k < 50; ++k) {
            std::string f = filter(r);
            f = f.substr(0, 200);
            for (auto n = r.range(0, 4); n > 0; --n) { f.insert(mangle::place(r, f), r.pick(strings{"true", "false", "|", ",", "=", "a", "|true,", "|false,a", "|true,a=b", " ", "\n", "\xff"})); }
            if (r.chance(0.3)) { mangle::once(ctx, r, f); }
            f = f.substr(0, 2000);
            if (const auto zero = f.find('\0'); zero != std::string::npos) { f.resize(zero); }
            if (f.empty()) { continue; }
            seen_type s;
            seen = &s;
            const strings w{"--prepare", "--file=map.osm", "--output=out", "--osm-profile=manual", "--osm-query=" + f};
            const auto o = run(w);
            const bool right = std::regex_match(f, pattern);
            ctx.require(right == (s.runs == 1), "filter-check", [&] { return vh::cat(right ? "refused" : "accepted", " [", mangle::say(f), "]\n", o.log); });
            ctx.stat(right ? "right_filters" : "wrong_filters");
            ctx.observe(vh::hash_str(f));
        }
        // of any length
        seen_type s;
        seen = &s;
        std::string f{"true"};
        const auto size = static_cast<std::size_t>(r.range(20000, 120000));
        const bool one = r.chance(0.5);
        if (one) {
            f += "|false," + std::string(size, 'k') + (r.chance(0.5) ? "=" + std::string(size, 'v') : "");
        } else {
            while (f.size() < size) { f += r.chance(0.5) ? "|false,key" : "|true,k=v"; }
        }
        const auto o = run({"--prepare", "--file=map.osm", "--output=out", "--osm-profile=manual", "--osm-filter", f});
        ctx.require(s.runs == 1, "filter-check", [&] { return vh::cat("refused ", f.size(), " bytes\n", o.log); });
        ctx.stat("long_filters");
    }

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {
            {"options", options, 1500, 60000},
            {"filters", filters, 200, 6000},
    });
}
