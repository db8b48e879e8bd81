// Monitor: files of tracks, matches and comparisons are read and compared with what was to be written.
#include "results_read.hpp"
#include "watchdog.hpp"

#include "compare/comparator.hpp"
#include "compare/comparator/comparator_forwarder_compares.hpp"
#include "compare/comparator/comparator_forwarder_data.hpp"
#include "compare/comparator/comparator_forwarder_matches.hpp"
#include "io/results/match/csv_match_exporter.hpp"
#include "io/results/match/match_output_printer.hpp"
#include "io/track/track_exporter.hpp"

#include <algorithm>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>

namespace {

    namespace g = map_matching_2::geometry;
    namespace io = map_matching_2::io;
    namespace cp = map_matching_2::compare;
    using variant = g::track::multi_track_variant_type;
    using results::lines;
    using results::row;
    using results::xy;

    using geographic = g::track::multi_track_type<g::point_type<g::cs_geographic>>;
    using spherical = g::track::multi_track_type<g::point_type<g::cs_spherical_equatorial>>;
    using plane = g::track::multi_track_type<g::point_type<g::cs_cartesian>>;

    struct capture {
        std::ostringstream out;
        std::streambuf *const kept{std::cout.rdbuf(out.rdbuf())};
        ~capture() { std::cout.rdbuf(kept); }
    };

    template<typename T>
    T make(const std::string &id, const lines &ls) {
        typename T::multi_line_type m;
        for (const auto &l : ls) {
            typename T::line_type line;
            for (const auto &[x, y] : l) { line.emplace_back(typename T::point_type{x, y}); }
            m.emplace_back(std::move(line));
        }
        return T{id, std::move(m)};
    }

    template<typename T>
    lines shape(const T &multi_rich_line) {
        lines out;
        for (const auto &rich_line : multi_rich_line.rich_lines()) {
            auto &l = out.emplace_back();
            for (const auto &p : rich_line.line()) { l.emplace_back(p.template get<0>(), p.template get<1>()); }
        }
        return out;
    }

    lines random_lines(vh::rng &r, bool degrees) {
        lines out;
        for (auto n = r.chance(0.6) ? 1 : r.range(0, 4); n > 0; --n) {
            auto &l = out.emplace_back();
            xy at{degrees ? r.real(-179, 179) : r.real(-1e7, 1e7), degrees ? r.real(-85, 85) : r.real(-1e7, 1e7)};
            if (r.chance(0.2)) { at = {static_cast<double>(r.range(-9, 9)), static_cast<double>(r.range(-9, 9))}; }
            for (auto k = r.chance(0.1) ? r.range(0, 1) : r.range(2, 8); k > 0; --k) {
                l.push_back(at);
                const double step = degrees ? 1e-4 : 10;
                at.first += r.real(-step, step) * (r.chance(0.2) ? 1e-6 : 1);
                at.second += r.real(-step, step);
            }
        }
        return out;
    }

    double length_of(const auto &multi_rich_line) { return multi_rich_line.has_length() ? static_cast<double>(multi_rich_line.length()) : 0.0; }

    struct entry {
        std::string id;
        lines ls;
        int kind;
        variant v;
    };

    entry random_entry(vh::rng &r, std::int64_t i) {
        const int kind = static_cast<int>(r.range(0, 2));
        const auto id = results::random_id(r, i);
        const auto ls = random_lines(r, kind != 2);
        return {id, ls, kind, kind == 0 ? variant{make<geographic>(id, ls)} : kind == 1 ? variant{make<spherical>(id, ls)} : variant{make<plane>(id, ls)}};
    }

    // one row per result in order of the results
    bool header_is(const std::vector<row> &rows, const std::vector<std::string> &columns) { return rows.empty() or rows.front() == columns; }

    void tracks(vh::context &ctx, vh::rng &r) {
        vh::watchdog dog{60};
        const auto file = ctx.scratch / "tracks.csv";
        const bool console = r.chance(0.15), verbose = r.chance(0.3);
        std::vector<entry> entries;
        for (auto n = r.chance(0.05) ? 0 : r.range(1, 40); n > 0; --n) { entries.push_back(random_entry(r, n)); }
        std::string printed;
        {
            capture c;
            {
                io::track::track_exporter exporter{file.string(), console, verbose};
                for (const auto &e : entries) { exporter.pass(e.v); }
            }
            printed = c.out.str();
        }
        auto rows = results::read_csv(file);
        std::filesystem::remove(file);
        std::string all;
        for (const auto &e : entries) {
            all += "\n{" + e.id + "} " + results::say(e.ls);
            ctx.stat(e.ls.empty() ? "empty" : e.ls.size() == 1 ? "single_part" : "multi_part");
        }
        ctx.observe(vh::hash_str(all));
        const auto say = [&] { return vh::cat("rows", results::say(rows), "\nprinted ", printed, "\nof", all); };
        if (console) {
            ctx.require(rows.empty(), "console output writes a file", say);
            std::istringstream in{printed};
            std::string l;
            for (const auto &e : entries) {
                ctx.require(std::getline(in, l) and results::same(l, e.ls), "printed track", say);
            }
            ctx.stat("printed_tracks", entries.size());
            return;
        }
        ctx.require(header_is(rows, {"id", "track"}), "header of tracks", say);
        ctx.require(rows.size() == (entries.empty() ? 0 : entries.size() + 1), "not one row per track", say);
        for (std::size_t i = 0; i + 1 < rows.size() and i < entries.size(); ++i) {
            const auto &row = rows[i + 1];
            ctx.require(row.size() == 2 and row[0] == entries[i].id and results::same(row[1], entries[i].ls), "row of a track", [&] { return vh::cat(i, say()); });
        }
        ctx.stat("track_rows", entries.size());
        if (verbose) {
            std::size_t points = 0;
            for (const auto &e : entries) {
                for (const auto &l : e.ls) { points += l.size(); }
            }
            ctx.require(entries.empty() or printed.find(vh::cat("Tracks count: ", entries.size(), ", tracks points: ", points)) != std::string::npos, "summary of tracks", say);
            ctx.stat("track_summaries");
        }
    }

    // stands for the result of a match with any learner
    struct environment {
        std::size_t e, s;
        [[nodiscard]] std::size_t edges() const { return e; }
        [[nodiscard]] std::size_t states() const { return s; }
    };
    template<typename T>
    struct match_result {
        using multi_track_type = T;
        std::vector<environment> environments;
        T track, prepared;
        typename T::multi_rich_line_type match;
        std::vector<std::uint64_t> edge_ids;
        bool aborted;
        double duration;
    };

    template<typename T>
    void matches_of(vh::context &ctx, vh::rng &r) {
        constexpr bool degrees = not std::same_as<T, plane>;
        const auto file = ctx.scratch / "matches.csv";
        const auto columns = results::random_columns(r, {"id", "aborted", "duration", "track", "prepared", "match", "track_length", "prepared_length", "match_length", "edge_ids"});
        std::vector<match_result<T>> matches;
        for (auto n = r.chance(0.05) ? 0 : r.range(1, 25); n > 0; --n) {
            const auto id = results::random_id(r, n);
            match_result<T> m{{}, make<T>(id, random_lines(r, degrees)), make<T>(id, random_lines(r, degrees)), make<T>(id, random_lines(r, degrees)).multi_rich_line, {}, r.chance(0.3), r.real(0, 1000)};
            for (auto k = r.range(0, 3); k > 0; --k) { m.environments.push_back({static_cast<std::size_t>(r.range(0, 99)), static_cast<std::size_t>(r.range(0, 99))}); }
            for (auto k = r.chance(0.3) ? 0 : r.range(1, 9); k > 0; --k) { m.edge_ids.push_back(r.chance(0.8) ? r.range(0, 999) : r.next()); }
            matches.push_back(std::move(m));
        }
        std::string printed;
        {
            capture c;
            {
                io::results::csv_match_exporter<> exporter{file.string(), results::joined(columns)};
                io::results::match_output_printer printer{false, true};
                exporter.start();
                printer.start();
                for (const auto &m : matches) {
                    exporter.pass(exporter.parse_result(m));
                    printer.pass(printer.parse_result(m));
                }
                exporter.stop();
                printer.stop();
                exporter.join();
                printer.join();
            }
            printed = c.out.str();
        }
        const auto rows = results::read_csv(file);
        std::filesystem::remove(file);
        std::string all;
        std::size_t track_points = 0, prepared_points = 0, edges = 0, states = 0;
        for (const auto &m : matches) {
            all += vh::cat("\n{", m.track.id, "} ", results::say(shape(m.track.multi_rich_line)), " ", results::say(shape(m.prepared.multi_rich_line)), " ", results::say(shape(m.match)), " ", m.duration);
            for (const auto &l : shape(m.track.multi_rich_line)) { track_points += l.size(); }
            for (const auto &l : shape(m.prepared.multi_rich_line)) { prepared_points += l.size(); }
            for (const auto &e : m.environments) { edges += e.e, states += e.s; }
        }
        ctx.observe(vh::hash_str(all + results::joined(columns)));
        const auto say = [&] { return vh::cat("rows", results::say(rows), "\nof", all, "\n", printed); };
        ctx.require(header_is(rows, columns), "header of matches", say);
        ctx.require(rows.size() == (matches.empty() ? 0 : matches.size() + 1), "not one row per match", say);
        for (std::size_t i = 0; i + 1 < rows.size() and i < matches.size(); ++i) {
            const auto &row = rows[i + 1];
            const auto &m = matches[i];
            ctx.require(row.size() == columns.size(), "columns of a match", say);
            for (std::size_t k = 0; k < std::min(row.size(), columns.size()); ++k) {
                const auto &c = columns[k];
                const auto &f = row[k];
                std::string ids;
                for (const auto id : m.edge_ids) { ids += (ids.empty() ? "" : ",") + std::to_string(id); }
                const bool good = c == "id" ? f == m.track.id :
                        c == "aborted" ? f == (m.aborted ? "yes" : "no") :
                        c == "duration" ? results::same_number(f, m.duration) :
                        c == "track" ? results::same(f, shape(m.track.multi_rich_line)) :
                        c == "prepared" ? results::same(f, shape(m.prepared.multi_rich_line)) :
                        c == "match" ? results::same(f, shape(m.match)) :
                        c == "track_length" ? results::same_number(f, length_of(m.track.multi_rich_line)) :
                        c == "prepared_length" ? results::same_number(f, length_of(m.prepared.multi_rich_line)) :
                        c == "match_length" ? results::same_number(f, length_of(m.match)) : f == ids;
                ctx.require(good, "match-" + c, [&] { return vh::cat("row ", i, ": {", f, "} ", say()); });
                ctx.stat("match_fields");
            }
        }
        ctx.require(matches.empty() or printed.find(vh::cat("tracks points: ", track_points, ", prepared points: ", prepared_points, ", candidates: ", edges, ", combinations: ", states)) != std::string::npos, "summary of matches", say);
        ctx.stat("match_rows", matches.size());
    }

    void matches(vh::context &ctx, vh::rng &r) {
        vh::watchdog dog{60};
        switch (r.range(0, 2)) {
            case 0: return matches_of<geographic>(ctx, r);
            case 1: return matches_of<spherical>(ctx, r);
            default: return matches_of<plane>(ctx, r);
        }
    }

    template<typename T>
    void comparisons_of(vh::context &ctx, vh::rng &r) {
        constexpr double step = std::same_as<T, plane> ? 1 : 1e-5;
        const auto file = ctx.scratch / "comparison.csv";
        const std::vector<std::string> known{"id", "duration", "match", "ground_truth", "match_length", "ground_truth_length", "correct_fraction", "error_fraction", "correct", "error_added", "error_missed",
                "corrects", "error_adds", "error_misses"};
        auto columns = results::random_columns(r, known);
        if (std::find(columns.begin(), columns.end(), "id") == columns.end()) { columns.insert(columns.begin(), "id"); }
        cp::settings s;
        s.ignore_non_existent = r.chance(0.4);
        s.simplifying_tolerance = s.simplifying_reverse_tolerance = s.adoption_distance_tolerance = r.chance(0.5) ? 0.1 : r.real(0.01, 3);
        s.split_distance_tolerance = r.real(0.5, 5);
        const bool console = r.chance(0.1), verbose = r.chance(0.3), mixed = r.chance(0.3);
        const auto threads = static_cast<std::uint32_t>(r.range(1, 8));

        const auto walk = [&] {
            lines ls;
            for (auto n = r.chance(0.7) ? 1 : r.range(0, 3); n > 0; --n) {
                auto &l = ls.emplace_back();
                xy at{static_cast<double>(r.range(0, 5)), static_cast<double>(r.range(0, 5))};
                for (auto k = r.chance(0.1) ? r.range(0, 1) : r.range(2, 7); k > 0; --k) {
                    l.push_back({at.first * 10 * step, at.second * 10 * step});
                    (r.chance(0.5) ? at.first : at.second) += r.chance(0.7) ? 1 : -1;
                }
            }
            return ls;
        };
        std::map<std::string, lines> truths, found;
        std::vector<std::pair<bool, std::string>> order; // is it a match
        for (auto n = r.chance(0.05) ? 0 : r.range(1, 14); n > 0; --n) {
            const auto id = results::random_id(r, n);
            const auto ls = walk();
            if (r.chance(0.85)) { truths[id] = ls, order.emplace_back(false, id); }
            if (r.chance(0.85)) { found[id] = r.chance(0.3) ? ls : walk(), order.emplace_back(true, id); }
        }
        // ground truths come first, if not mixed
        r.shuffle(order);
        if (not mixed) { std::stable_partition(order.begin(), order.end(), [](const auto &o) { return not o.first; }); }
        std::string printed;
        {
            capture c;
            {
                cp::comparator comparator{cp::comparator_output_settings{file.string(), results::joined(columns), console, verbose}, threads};
                comparator.start();
                cp::comparator_forwarder_data data{comparator, s};
                const cp::comparator_forwarder_compares compares{data};
                const cp::comparator_forwarder_matches matches{data};
                for (const auto &[match, id] : order) {
                    if (match) {
                        matches.pass(make<T>(id, found[id]));
                    } else {
                        compares.pass(make<T>(id, truths[id]));
                    }
                }
                data.finish();
                comparator.stop();
                comparator.join();
            }
            printed = c.out.str();
        }
        const auto rows = results::read_csv(file);
        std::filesystem::remove(file);
        std::string all = vh::cat("columns ", results::joined(columns), " ignore ", s.ignore_non_existent, " threads ", threads, " tolerance ", s.simplifying_tolerance, " split ", s.split_distance_tolerance);
        for (const auto &[match, id] : order) { all += vh::cat("\n", match ? "match" : "truth", " {", id, "} ", results::say(match ? found[id] : truths[id])); }
        ctx.observe(vh::hash_str(all));
        const auto say = [&] { return vh::cat("rows", results::say(rows), "\nprinted\n", printed, "\nof ", all); };

        std::map<std::string, std::pair<lines, lines>> expected; // truth, match
        for (const auto &[id, ls] : truths) {
            if (found.contains(id)) {
                expected[id] = {ls, found[id]};
                ctx.stat("compared_with_match");
            } else if (not s.ignore_non_existent) {
                expected[id] = {ls, {}};
                ctx.stat("compared_with_nothing");
            } else {
                ctx.stat("ignored_truths");
            }
        }
        if (console) {
            ctx.require(rows.empty(), "console output writes a file", say);
            for (const auto &[id, e] : expected) { ctx.require(printed.find(vh::cat("Comparison '", id, "':")) != std::string::npos, "printed comparison", say); }
            ctx.stat("printed_comparisons", expected.size());
            return;
        }
        ctx.require(header_is(rows, columns), "header of comparisons", say);
        ctx.require(rows.size() == (expected.empty() ? 0 : expected.size() + 1), "not one row per ground truth", say);
        const auto id_at = static_cast<std::size_t>(std::find(columns.begin(), columns.end(), "id") - columns.begin());
        std::set<std::string> seen;
        for (std::size_t i = 1; i < rows.size(); ++i) {
            const auto &row = rows[i];
            ctx.require(row.size() == columns.size(), "columns of a comparison", say);
            if (row.size() != columns.size()) { return; }
            const auto it = expected.find(row[id_at]);
            ctx.require(it != expected.end() and seen.insert(row[id_at]).second, "comparison of an unknown or repeated id", [&] { return row[id_at] + say(); });
            if (it == expected.end()) { return; }
            const auto truth = make<T>(it->first, it->second.first), match = make<T>(it->first, it->second.second);
            // the algorithm itself has its own monitor
            g::line_comparator<typename T::multi_rich_line_type> comparator{s.simplifying_tolerance, s.simplifying_reverse_tolerance, s.adoption_distance_tolerance, s.split_distance_tolerance, s.split_direction_tolerance, false};
            const auto c = comparator.compare(truth.multi_rich_line, match.multi_rich_line);
            const auto segments = [](const auto &list) {
                lines out;
                for (const auto &segment : list) {
                    out.push_back({{segment.first().template get<0>(), segment.first().template get<1>()}, {segment.second().template get<0>(), segment.second().template get<1>()}});
                }
                return out;
            };
            for (std::size_t k = 0; k < columns.size(); ++k) {
                const auto &n = columns[k];
                const auto &f = row[k];
                const bool good = n == "id" ? true :
                        n == "duration" ? not f.empty() and std::atof(f.c_str()) >= 0 :
                        n == "match" ? results::same(f, it->second.second) :
                        n == "ground_truth" ? results::same(f, it->second.first) :
                        n == "match_length" ? results::same_number(f, length_of(match.multi_rich_line)) :
                        n == "ground_truth_length" ? results::same_number(f, length_of(truth.multi_rich_line)) :
                        n == "correct_fraction" ? results::same_number(f, c.correct_fraction) :
                        n == "error_fraction" ? results::same_number(f, c.error_fraction) :
                        n == "correct" ? results::same_number(f, c.correct) :
                        n == "error_added" ? results::same_number(f, c.error_added) :
                        n == "error_missed" ? results::same_number(f, c.error_missed) :
                        n == "corrects" ? results::same(f, segments(c.corrects)) :
                        n == "error_adds" ? results::same(f, segments(c.error_adds)) : results::same(f, segments(c.error_misses));
                ctx.require(good, "comparison-" + n, [&] { return vh::cat("row ", i, ": {", f, "} ", say()); });
                ctx.stat("comparison_fields");
            }
        }
        ctx.stat("comparison_rows", expected.size());
        if (verbose and not expected.empty()) {
            ctx.require(printed.find(vh::cat("Compares count: ", expected.size(), ",")) != std::string::npos, "summary of comparisons", say);
        }
    }

    void comparisons(vh::context &ctx, vh::rng &r) {
        vh::watchdog dog{60};
        switch (r.range(0, 3)) {
            case 0: return comparisons_of<geographic>(ctx, r);
            case 1: return comparisons_of<spherical>(ctx, r);
            default: return comparisons_of<plane>(ctx, r);
        }
    }

}

int main(int argc, char *argv[]) {
    return vh::run(argc, argv, {
                                       {"tracks", tracks, 2000, 40000, 20},
                                       {"matches", matches, 2000, 40000, 20},
                                       {"comparisons", comparisons, 2500, 40000, 20},
                               });
}
